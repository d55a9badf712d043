GEN = "Exhaustive in the stated bounds on the model; the code is bound by replaying every generated behaviour and by TLC's validation of recorded ones. Inputs beyond the bounds are sampled."
T["C03"] = ("TLA+ lexer machine (Lexer.tla): TLC-generated texts replayed, recorded tokenisations trace-validated", GEN)
T["C06"] = ("TLA+ lexer machine with print/read-back invariant: TLC-generated texts replayed, recorded round trips trace-validated", GEN)
T["C04"] = ("TLA+ text-fragment machine (Text.tla) with the entry-point contract value-or-error; every text replayed, recorded calls trace-validated by TLC", GEN)
T["C05"] = ("TLA+ grammar of production texts (Grammar.tla): TLC-generated texts with expected parts replayed, recorded parses trace-validated", GEN)
T["C07"] = ("TLA+ matching relation (LSystem.tla, Match.tla): every head on every string within bounds replayed; recorded matches trace-validated", GEN)
T["C08"] = ("TLA+ derivation scan machine refining the atomic parallel step (DeriveMC.tla, TLC safety and liveness); generated systems replayed; recorded steps trace-validated", GEN)
T["C09"] = ("TLA+ iteration of the parallel step (LSystem.tla, DeriveGen.tla): generated derivations replayed; recorded derivations trace-validated", GEN)
T["C11"] = ("TLA+ store machine (Store.tla): one generated history per transition replayed on System; recorded histories trace-validated", GEN)
T["C14"] = ("TLA+ store machine (Store.tla), alphabet part: generated histories replayed; recorded histories trace-validated", GEN)
T["C16"] = ("TLA+ family machine (Family.tla): every sequence of definitions within bounds replayed", GEN)
T["C24"] = ("TLA+ store and family-registry machines whose failing actions leave the state unchanged: generated histories replayed, recorded ones trace-validated", GEN)
T["C25"] = ("TLA+ store machine for plain symbol sets and production lists: generated histories replayed, recorded ones trace-validated", GEN)
T["C17"] = ("TLA+ turtle with exact symbolic positions (Turtle.tla): every string and store within bounds replayed; long recorded drawings trace-validated by TLC", GEN)
T["C18"] = ("TLA+ turtle with a branch stack (Turtle.tla; TLC invariants ErrorExactly, BranchesLeaveNoTrace): generated strings replayed; long recorded drawings trace-validated", GEN)
T["C23"] = ("TLA+ running box refining the declarative tightest box (Bounds.tla): every lattice collection replayed; large recorded ones trace-validated by TLC", GEN)
T["C26"] = ("TLA+ lattice plane with exact quarter turns (Plane.tla; composition laws as TLC action properties): every operation sequence replayed; recorded ones trace-validated", GEN)
T["C19"] = ("TLA+ exact placement of drawings on a canvas (Svg.tla; TLC invariants InsideCanvas, Centred, Upright, Undistorted, AsLargeAsPossible): every lattice drawing replayed and the real document read back; recorded documents trace-validated", GEN)
T["C20"] = ("TLA+ document contents (Svg.tla): every lattice drawing replayed, the real document read with an independent XML parser; recorded documents trace-validated", GEN)
T["C21"] = ("TLA+ line machine of plant descriptions (Plant.tla; TLC invariant: order of lines of different kinds is without meaning): every description within bounds replayed; long recorded ones trace-validated", GEN)
T["C22"] = ("TLA+ step machine of the tool over a directory (Cli.tla; TLC: the steps refine one atomic run, success exactly when saved, every run ends): every configuration run on the real binary; recorded histories of runs trace-validated", GEN)

SCHED = "Schedules are exhaustive within the preemption bound for the generated programs (limits are stated in the evidence), at the grain of lock, atomic and initialiser operations of the real code under sequential consistency; longer programs are sampled."
T["C01"] = ("TLA+ atomic registry (Registry.tla) and its lock-grain design (RegistryMC.tla, TLC refinement and liveness); TLC-generated client programs run on the real code under controlled schedules; every distinct history trace-validated by TLC", SCHED)
T["C02"] = ("TLA+ atomic registry with read-back (Registry.tla, RegistryMC.tla): TLC-generated client programs run on the real code under controlled schedules; every distinct history trace-validated by TLC", SCHED)
T["C10"] = ("TLA+ exact rational choice probabilities (Stochastic.tla; TLC: they are a distribution): every list of chances within bounds run on the real code, recorded frequencies and pair frequencies judged by TLC", "Lists of chances are exhaustive in the stated bounds; frequencies are statistical (6.5 standard deviations), with a deterministic generator in the place of the thread's")
T["C12"] = ("TLA+ shared system (SharedSystem.tla) refined by its lock-grain design (SystemMC.tla); TLC-generated client programs run on the real code under controlled schedules; every distinct history checked for linearizability by TLC (SystemTrace.tla)", SCHED)
T["C13"] = ("TLA+ lock-grain designs (RegistryMC, SystemMC, FamilyMC: TLC deadlock freedom and liveness under fairness); TLC-generated client programs over every concurrent entry point run on the real code under controlled schedules", SCHED)
T["C15"] = ("TLA+ family registry (FamilyReg.tla, FamilyMC.tla): generated sequential histories replayed; TLC-generated client programs run on the real code under controlled schedules; every distinct history trace-validated by TLC (FamilyTrace.tla)", SCHED)
T["C27"] = ("TLA+ pipeline machine (Pipeline.tla on Plant, LSystem and exact lattice turtle and placement; TLC invariants on every description within bounds): every behaviour replayed through the library and the tool; longer recorded ones trace-validated by TLC", GEN)
T["C28"] = ("TLA+ machine of two sequence values (Seqs.tla; TLC action properties: copies are independent, pushes append): one generated program per transition replayed on strings and paths; long recorded programs trace-validated by TLC", GEN)
T["C29"] = ("TLA+ machine of two productions made of parts (Parts.tla; TLC action properties: heads and earlier bodies stay): one generated program per transition replayed; long recorded programs trace-validated by TLC", GEN)
T["C30"] = ("TLA+ machine of SVG elements and their attributes with an XML write/read inverse (Elements.tla; TLC invariants ReadsBack, Once, Absent): one generated program per transition replayed, the real text read with an independent XML parser; long recorded programs trace-validated by TLC", GEN)
T["C31"] = ("TLA+ machine that reads a command line item by item (Args.tla; TLC invariants: order is without meaning, verbose is only talk): every line within bounds run on the real tool; longer recorded runs trace-validated by TLC", GEN)
T["C32"] = ("TLA+ machine of interpretations made, wrapped and copied, with what can be asked of each (Settings.tla; TLC invariants): one generated program per transition replayed; long recorded programs trace-validated by TLC", GEN)
T["C33"] = ("TLA+ machine of errors made, obtained from failing calls and copied, with what each shows and its source (Errors.tla; TLC invariants): one generated program per transition replayed; long recorded programs trace-validated by TLC", GEN)
T["C34"] = ("TLA+ function from the text of a token to its kind, print and symbol (Tokens.tla; TLC invariants): every text within bounds replayed in several readings; tokens of recorded texts trace-validated by TLC", GEN)
