#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state=(), mech=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Symbol names and codes correspond one to one",
 "For the whole life of the process and from every thread, two requests for a symbol give the same code exactly when their names are equal after removing surrounding white space. A name that is empty or only white space is an error.",
 ["schedules", "histories", "inputs"], "every set of threads, every interleaving of their requests, every list of names",
 "The tests ask for a handful of names from one thread; a duplicate or shared code appears only when two first requests interleave.",
 ["src/symbols.rs"], [("code register", "name -> code", "src/symbols.rs CODE_REGISTER"), ("next id", "next free code", "src/symbols.rs SYMBOL_ID")],
 [("look-up and insertion under one write lock", "src/symbols.rs get_code")], ["symbols::get_code", "Symbol::build", "Symbol::try_from", "str::parse::<Symbol>"])
prop("C02", "A known code always reads back as its name",
 "From the moment any thread has been given the code of a symbol, every thread that looks that code up gets exactly the trimmed name it was requested with, always the same. A code that was never given out has no name, and turning it into a checked symbol is an error.",
 ["schedules", "histories"], "every interleaving of requests for new and known names with look-ups of codes",
 "The tests read back in the thread that registered; the window between publishing the code and publishing the name needs a second thread at that point (BUILD.json notes the race the suite hides with one test thread).",
 ["src/symbols.rs"], [("name register", "code -> name", "src/symbols.rs NAME_REGISTER")],
 [("name recorded before the code register is released", "src/symbols.rs get_code")], ["symbols::get_name", "Symbol::name", "Symbol Display", "Symbol::try_from(u32)"])
prop("C03", "Production-string text yields exactly its tokens",
 "Parsing the text of a production string yields exactly the tokens written in it, in order, up to the first lone `;` or the end of the text: a maximal run of the characters `< > - + ( ) ;` is one token, a maximal run of other non-space characters is one token, and white space of any kind and amount only separates. A lone `->`, `<` or `>` among those tokens makes the parse an error, and each token reports the byte range of the text that it occupies.",
 ["inputs"], "every text: every length, spacing, punctuation, white-space character and alphabet",
 "The tests tokenise about a dozen texts, all separated by single ASCII spaces or nothing; dropping a token needs particular neighbours of a token.",
 ["src/parser/iterator.rs", "src/parser/token.rs", "src/parser/statement.rs", "src/parser.rs"],
 [("cursor", "byte position of the next unread character", "src/parser/iterator.rs TokenIterator.current")],
 [("token boundaries", "src/parser/iterator.rs next_break, is_break, is_consume"), ("statement end", "src/parser/statement.rs compile_from")],
 ["parser::parse_prod_string", "str::parse::<ProductionString>", "parser::iterator::TokenIterator"])
prop("C04", "No text makes a parser panic or hang",
 "For every text, parsing it as a production string, a production, a production head, a production body, a symbol name or a plant description returns a value or an error. It never panics and always terminates.",
 ["inputs"], "every Unicode text given to every text-accepting entry point",
 "The tests use ASCII text with ordinary numbers; multi-byte characters at token boundaries and odd numbers are not sampled.",
 ["src/parser.rs", "src/parser/iterator.rs", "src/productions.rs", "src/symbols.rs", "src/interpretation/abop/parser.rs"],
 [], [("char-boundary arithmetic", "src/parser/iterator.rs TokenIterator::next"), ("chance validation", "src/productions.rs try_with_chance, Chance::new")],
 ["parser::parse_prod_string", "parser::parse_production", "parser::parse_production_head", "parser::parse_production_body", "str::parse::<Symbol>", "abop::parser::parse"])
prop("C05", "Production text yields exactly its head, chance and body",
 "A text `[left <] target [> right] -> [chance] body` is split at its first `->` and parses to exactly that left context, target, right context, chance and body, each a list of the white-space-separated terms written there in order; a missing `->`, an empty head or anything but one target term is an error. A leading number in the body is its chance and not a symbol, a chance outside 0..1 is an error, a body with no terms is the empty string, and a body without a number has an unset chance.",
 ["inputs"], "every sequence of terms in head and body, every spacing",
 "The tests parse six productions; contexts longer than one symbol, chances at the bounds and misplaced markers are not sampled.",
 ["src/parser.rs", "src/productions.rs"], [], [("arrow and context splitting", "src/parser.rs parse_production, parse_production_head"), ("chance detection", "src/parser.rs parse_production_body")],
 ["parser::parse_production", "parser::parse_production_head", "parser::parse_production_body", "str::parse::<Production>", "Production::try_from(String)"])
prop("C06", "Printing and parsing a production string are inverse",
 "The printed form of a production string is its symbols' names in order, separated by single spaces, and parsing the printed form of any string that came from text gives back an equal string. Two strings are equal exactly when they have the same symbols in the same order.",
 ["inputs"], "every parsable text",
 "One test prints one three-symbol string and never parses it back.",
 ["src/strings.rs", "src/parser/iterator.rs", "src/symbols.rs"], [], [("Display", "src/strings.rs, src/symbols.rs"), ("FromStr", "src/strings.rs")],
 ["ProductionString Display", "str::parse::<ProductionString>", "ProductionString Eq"])
prop("C07", "A production matches exactly where its context stands",
 "A production matches a position of a string if and only if the symbol there is its target, its left context (if any) stands in order immediately before that position and its right context (if any) immediately after it. A context reaching past either end of the string, or a position outside the string, does not match and is not a failure. Inside of the string, each context asked for alone says whether it stands there, whatever the symbol is.",
 ["inputs"], "every head, string and position, including positions past the end and empty strings",
 "The tests try seven heads with contexts up to two symbols at a few positions, none out of range.",
 ["src/productions.rs"], [], [("context comparison", "src/productions.rs ProductionHead::matches, pre_matches, post_matches")],
 ["Production::matches", "ProductionHead::matches"])
prop("C08", "One derivation step rewrites every symbol in parallel",
 "One derivation step replaces each symbol of the string by a body of the first-added production that matches at its position and keeps symbols that no production matches, and the result is those replacements joined in order. Matching always looks at the string as it was before the step, never at what was already rewritten.",
 ["inputs", "programs"], "every list of productions (context-free, context-sensitive, erasing, overlapping) and every string",
 "The tests run three small systems; overlapping productions, erased neighbours and contexts whose neighbours are rewritten in the same step are barely sampled.",
 ["src/system.rs", "src/productions.rs"], [], [("per-position rewriting", "src/system.rs derive_once"), ("production choice by order", "src/system.rs find_matching")],
 ["System::derive_once", "system::derive_once", "system::find_matching"])
prop("C09", "A derivation is exactly the requested number of steps",
 "Deriving a string with a maximum of n iterations gives the result of n successive single steps, so n = 0 gives the string unchanged, deriving m and then n gives the same as deriving m+n, and the default is 10 steps. The empty string derives to the empty string, and a string that becomes empty stays empty.",
 ["inputs", "programs"], "every deterministic system, string and number of iterations",
 "The tests derive once or twice with one non-empty system.",
 ["src/system.rs", "src/interpretation/abop.rs", "src/interpretation/svg.rs"], [], [("iteration loop", "src/system.rs derive"), ("settings", "src/system.rs RunSettings; Interpretation::run_settings")],
 ["System::derive", "system::derive", "RunSettings", "Interpretation::run_settings"])
prop("C10", "Stochastic productions choose bodies by their chances",
 "When a production has several bodies, each rewritten occurrence independently uses one of that production's bodies: a body with chance c with probability c, and bodies without a chance sharing what is left of 1 equally (if every body has a chance, the last one also takes what is left). A body with no probability is never used, a production with a single body always uses it, and chances that add up to more than 1 are an error while chances that add up to 1 in decimal are not.",
 ["inputs", "programs"], "every list of chances and every random draw",
 "No test runs a production with two bodies; probabilities are a statement about all draws.",
 ["src/productions.rs"], [("chance", "set or derived probability of a body", "src/productions.rs Chance")], [("cumulative choice", "src/productions.rs Production::body")],
 ["Production::body", "System::derive_once"])
prop("C11", "A system keeps every production, merged by equal head",
 "After any history of added productions, a system holds one production per distinct head (target and both contexts) in the order the heads were first added, and each holds all bodies added for that head in order with their chances. Adding returns the stored production as it then is, with every body added for that head so far.",
 ["histories"], "every sequence of additions with equal, similar and distinct heads",
 "The tests add at most two productions and never the same head twice.",
 ["src/system.rs", "src/productions.rs"], [("productions", "list of productions of a system", "src/system.rs System.productions")], [("merge by head", "src/system.rs add_production; src/productions.rs merge")],
 ["System::add_production", "System::production_len", "Production::all_bodies", "System::derive_once"])
prop("C12", "A system shared between threads behaves atomically",
 "When threads share one system, every history of additions, look-ups, counts and derivations has the same results as those calls made one at a time in an order consistent with real time: no production, body or symbol is lost or doubled, and one derivation uses one set of productions throughout. Adding a production counts as adding its symbols one after the other and then the production itself, so that a count of symbols may see a part of them; but a production is visible only when all its symbols already are.",
 ["schedules", "histories"], "every program of concurrent calls on one system and every interleaving of them",
 "One test checks at compile time that System is Sync and Send; no test makes concurrent calls.",
 ["src/system.rs", "src/symbols.rs"], [("productions lock", "guards the list of productions", "src/system.rs System.productions"), ("symbols lock", "guards the alphabet", "src/system.rs System.symbols")],
 [("find-or-merge under the write lock; whole derivation under one read lock", "src/system.rs add_production, derive")],
 ["System::add_production", "System::add_symbol", "System::get_symbol", "System::derive", "System::symbol_len", "System::production_len"])
prop("C13", "Concurrent calls never block each other for ever",
 "In every interleaving of calls on shared systems, the symbol registry and the family registry, every call returns.",
 ["schedules"], "every program of concurrent calls and every interleaving of their lock operations",
 "Tests run on one thread; a deadlock needs two calls that hold one lock each.",
 ["src/system.rs", "src/symbols.rs", "src/system/family.rs"], [("locks", "code and name registers, symbols and productions of a system, family registry", "src/symbols.rs, src/system.rs, src/system/family.rs")],
 [("one lock order: productions before symbols, codes before names", "src/system.rs add_production; src/symbols.rs get_code")],
 ["every concurrent entry point"])
prop("C14", "A system's alphabet is exactly the symbols given to it",
 "A system finds a symbol by name if and only if that symbol was added to that system, directly, as part of the family it was created from, or as part of a production added to it (its contexts, target and every body). The symbol count is the number of distinct such symbols, asking for a symbol never adds it, and one system's alphabet and productions never affect another's.",
 ["histories"], "every history of additions, look-ups and counts on several systems",
 "The tests count symbols after a few additions on one system; look-ups that add, missed context symbols and leaks between systems are not sampled.",
 ["src/system.rs", "src/symbols.rs", "src/symbols/iterator.rs"], [("symbols", "set of codes of a system", "src/system.rs System.symbols")],
 [("symbols registered from every part of a production", "src/symbols/iterator.rs; src/system.rs add_production")],
 ["System::get_symbol", "System::add_symbol", "System::symbol_len"])
prop("C15", "A family name is registered at most once",
 "In every interleaving, at most one family is ever registered under a name and it is never replaced or removed: of competing registrations exactly one succeeds and the others report an error, and every look-up afterwards gives that same family. Get-or-initialise runs its initialiser only if the name is unregistered, at most one caller's initialiser takes effect, and all callers get the same family. An initialiser that panics registers nothing, and the registry goes on working as before.",
 ["schedules", "histories"], "every interleaving and history of register, look-up and get-or-initialise on equal and distinct names",
 "The tests register each name once from one thread.",
 ["src/system/family.rs"], [("registry", "family name -> family", "src/system/family.rs reference()")], [("check and insert under one write lock; double-checked initialisation", "src/system/family.rs register, get_or_init_family, Builder::register")],
 ["family::register", "Builder::register", "family::get_family", "family::get_or_init_family", "family::family_exists"])
prop("C16", "A family fixes the alphabet of its systems",
 "A family has exactly the terminals and productions it was defined with, with their descriptions (the last definition of a name counts), and a system created from a family, given as a value or by registered name, knows exactly those symbols and has no productions. Creating a system from an unregistered name, or a family with a blank name, is an error.",
 ["inputs", "histories"], "every family definition, and every way to give a family",
 "One test defines a family with two symbols; repeated names, names in both groups and separate systems of one family are not sampled.",
 ["src/system/family.rs", "src/system.rs"], [], [("collection by name", "src/system/family.rs Builder::build"), ("of_family", "src/system.rs System::of_family")],
 ["Builder::build", "SystemFamily::symbols", "System::of_family", "AbopTurtleInterpretation::system"])
prop("C17", "The turtle draws one segment per forward symbol",
 "Interpreting a string draws, in order, exactly one segment for each Forward symbol, from where the turtle stands to one fixed step length away in its heading; Move makes the same step without drawing; + and - turn the heading by delta degrees counter-clockwise and clockwise, and every other symbol changes nothing. The turtle starts at the origin heading up (0,1), and this holds for every symbol store, where a turtle symbol missing from the store is ignored.",
 ["inputs"], "every string, every angle, every symbol store",
 "One test interprets two Forward symbols and counts points.",
 ["src/interpretation/abop.rs", "src/geometry.rs"], [("turtle", "position, heading and the path being drawn", "src/interpretation/abop.rs interpret")], [("symbol dispatch", "src/interpretation/abop.rs interpret"), ("rotation", "src/geometry.rs Vector::rotate")],
 ["AbopTurtleInterpretation::interpret", "Interpretation::default_interpret"])
prop("C18", "Closing a branch restores the turtle exactly",
 "A ] puts the turtle back to the position and heading it had at the matching [, at any depth of nesting, so that what follows a branch is drawn as if the branch were not there, and no segment joins the end of a branch to what follows it. A ] with no open [ is reported as an error and never crashes; a [ that is never closed is harmless.",
 ["inputs"], "every bracket structure, balanced or not, around every turtle program",
 "No test interprets a bracket.",
 ["src/interpretation/abop.rs"], [("stack", "saved positions and headings", "src/interpretation/abop.rs pos_stack")], [("push and pop", "src/interpretation/abop.rs interpret")],
 ["AbopTurtleInterpretation::interpret"])
prop("C19", "Every drawing is scaled to fit its canvas",
 "The SVG of a drawing places every drawn point inside the canvas of the requested width and height, upright (up in the drawing is up in the image), undistorted (one scale for both axes) and centred, and as large as possible: it touches two opposite edges. Every number in the document is finite, also for drawings with no extent in one or both directions and for nothing drawn.",
 ["inputs", "configurations"], "every drawing and every positive canvas size",
 "No test produces an SVG.",
 ["src/interpretation/svg.rs", "src/geometry.rs"], [], [("transform list", "src/interpretation/svg.rs interpret"), ("bounds", "src/geometry.rs Bounds for Vec<Path>")],
 ["SvgPathInterpretation::interpret", "SvgElement::to_svg"])
prop("C20", "The SVG document contains exactly the drawing",
 "The SVG text is a well-formed XML document whose root is an svg element of the requested width and height, and it contains exactly one path element per path of the drawing, in order, whose data is that path's points in order (M for the first, L for the others). Saving writes exactly that text to the file, replacing whatever was there.",
 ["inputs", "configurations"], "every drawing, every canvas size, every earlier content of the file",
 "No test produces an SVG or a file.",
 ["src/interpretation/svg.rs"], [], [("serialisation", "src/interpretation/svg.rs SvgElement impls"), ("saving", "src/interpretation/svg.rs Svg::save_file")],
 ["SvgElement::to_svg", "Svg::save_file"])
prop("C21", "A plant description means what its lines say, in any order",
 "Parsing a plant description gives the iteration count of its last n line (2 if none), the angle of its last delta line (5 if none), the axiom of its last initial line and a system of the turtle alphabet with exactly its productions in order, whatever the order of the lines. Comments from # to the end of the line, blank lines and surrounding white space change nothing; a description with no production, no axiom, an unknown setting, an unreadable number or an unreadable line is an error.",
 ["inputs"], "every sequence of lines: settings, axiom, productions, comments, blanks, malformed lines",
 "One test parses one well-formed description and counts productions and symbols.",
 ["src/interpretation/abop/parser.rs"], [("settings", "n, delta, axiom and production count read so far", "src/interpretation/abop/parser.rs parse")], [("line classification", "src/interpretation/abop/parser.rs parse, is_equality_line, is_initial, remove_comment")],
 ["abop::parser::parse", "abop::parser::parse_file"])
prop("C22", "The lsystem tool succeeds exactly when it wrote the drawing",
 "The interpret command exits with success if and only if it read a valid plant file and saved the SVG of its derivation (at the requested size) to the output path, whose extension is made .svg when it is anything else. In every other case it exits with failure, reports an error on standard error, never crashes, and does not create or change the output file when the input is at fault. None of this depends on whether what it prints can be written.",
 ["configurations", "fault_sequences"], "every combination of input (missing, unreadable, malformed, underivable, uninterpretable, valid), output path and options",
 "The tool has no tests.",
 ["src/bin/lsystem/main.rs", "src/bin/lsystem/derive.rs", "src/bin/lsystem/cli.rs", "src/interpretation/svg.rs"], [], [("stages and their error exits", "src/bin/lsystem/derive.rs handle_derive")],
 ["lsystem interpret: exit status, standard error, files"])
prop("C23", "Bounds are the tightest box around the points",
 "The bounds of a path or of a collection of paths are the smallest axis-aligned box containing all their points, with the mean of all points as centre of mass; width, height and centre are those of that box. Something with no points has no bounds.",
 ["inputs"], "every path and every collection of paths, including empty ones and ones among others",
 "The test computes width and height of boxes given literally; no test takes the bounds of a path.",
 ["src/geometry.rs"], [], [("running minimum and maximum", "src/geometry.rs Bounds for Path, Bounds for Vec<Path>")],
 ["Bounds::bounds", "BoundingBox::width", "BoundingBox::height", "BoundingBox::center"])
prop("C24", "A failed operation changes nothing",
 "An operation on a system, a symbol or production store or the family registry that reports an error leaves it as it was: same symbols, same productions and bodies, same families, and everything that worked before still works with the same results.",
 ["histories", "fault_sequences"], "every history in which some operations fail",
 "The tests check that a few operations fail and then stop looking.",
 ["src/system.rs", "src/parser.rs", "src/productions.rs", "src/symbols.rs", "src/system/family.rs"], [], [("conversion before modification", "src/system.rs add_production, add_symbol; src/parser.rs parse_and_add_production; src/system/family.rs register")],
 ["System::add_production", "System::add_symbol", "parser::parse_and_add_production", "family::register", "System::derive"])
prop("C25", "Parsing into your own stores adds everything parsed",
 "Parsing a production into a symbol store and a production store adds every symbol of the production (left context, target, right context, all bodies) to the symbol store, appends the production to the production store, and returns the production that was stored. The set-based store then finds exactly the symbols that were added, and the list-based store keeps one entry per addition in order.",
 ["histories", "inputs"], "every history of parsed productions and look-ups on one pair of stores",
 "A doc-test makes one call and looks at nothing.",
 ["src/parser.rs", "src/symbols.rs", "src/productions.rs", "src/symbols/iterator.rs"], [], [("registration of all symbols", "src/parser.rs parse_and_add_production; src/symbols/iterator.rs")],
 ["parser::parse_and_add_production", "RefCell<HashSet<u32>> as SymbolStore", "RefCell<Vec<Production>> as ProductionStore", "SymbolIterable"])
prop("C26", "Turns, steps and offsets compose like plane geometry",
 "Turning a vector by a and then b degrees equals turning it by a+b, a turn of 90 degrees is counter-clockwise, turns keep length, and four quarter turns are no turn. Adding, subtracting and negating points and vectors works coordinate by coordinate, and offsetting a path moves each of its points by that vector and changes nothing else. Up, down and zero are (0, 1), (0, -1) and (0, 0), the defaults are zero, and a point or vector prints as its two coordinates, exactly.",
 ["inputs", "programs"], "every sequence of turns, steps and offsets",
 "One test turns one vector once.",
 ["src/geometry.rs"], [], [("rotation", "src/geometry.rs Vector::rotate"), ("operators", "src/geometry.rs Add, Sub, Neg, Div")],
 ["Vector::rotate", "Vector/Point operators", "Path + Vector"])
prop("C27", "A plant file's picture is what its text describes",
 "The document made of a plant description shows exactly what the description says: its axiom rewritten n times by its productions (each with one body), drawn symbol by symbol by the turtle that turns delta degrees, one line for each Forward, placed on a canvas of the requested width and height. It is the same through the library (its run settings, single derivation steps, re-read strings, saved documents) and the lsystem tool, and every time it is made; a description that is faulty, or whose branches do not match, gives an error and no document.",
 ["inputs", "programs"], "every description, canvas size and way through the interfaces",
 "The tests read one description and draw one string; none goes from a text to a document.",
 ["src/interpretation/abop/parser.rs", "src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/system.rs", "src/bin/lsystem/derive.rs"], [], [("the chain", "src/bin/lsystem/derive.rs handle_derive"), ("run settings", "src/interpretation/abop.rs, src/interpretation/svg.rs run_settings")],
 ["parser::parse, parser::parse_file", "System::derive", "SvgPathInterpretation::interpret", "lsystem interpret"])
prop("C28", "Strings and paths are plain sequences of what was put in them",
 "A production string holds exactly the symbols put into it, and a path exactly the points, in that order, however it was made: empty, from a list, from one symbol, by pushing, by collecting. Every way of reading it (length, emptiness, index, get, get_start, iterating by reference or by value, the list of symbols, the printed form: names separated by single spaces, a symbol without a name as `code:N`) shows that sequence. Two production strings are equal exactly when they hold the same sequence, and equal ones have equal hashes. What is done to one value never changes a copy of it.",
 ["programs", "inputs"], "every sequence of operations on two values, every content and length",
 "The tests push a few symbols and look at a length; no test compares, copies or iterates strings of any size.",
 ["src/strings.rs", "src/geometry.rs", "src/symbols/iterator.rs"], [("symbols", "the sequence", "src/strings.rs ProductionString.symbols"), ("points", "the sequence", "src/geometry.rs Path.points")],
 [("conversions and iterators", "src/strings.rs From, Index, IntoIterator, Display; src/geometry.rs Path")],
 ["ProductionString::{push_symbol, len, symbols, iter}, Index, Display, Eq, Hash", "Path::{push, len, get, get_start, iter}, FromIterator, Index"])
prop("C29", "A production is exactly the parts it was made of",
 "A production made of a head and bodies has exactly those parts: its left context (or none), target, right context (or none), and its bodies with their chances in the order in which they were added. A body takes a chance exactly when it is a number from 0 to 1, anything else is an error, and gives it back unchanged; a body without one says that it is not set. Adding a body, or merging another production, appends and changes nothing else. Two productions are equal, and then have equal hashes, exactly when their heads are equal. A production parsed from a text of the same parts is the same. Iterating gives the symbols of left context, target, right context and bodies, in this order.",
 ["programs", "inputs"], "every sequence of operations on two productions, every head, body and chance",
 "The tests build a few productions and read one field of each.",
 ["src/productions.rs", "src/symbols/iterator.rs", "src/parser.rs"], [("bodies", "in the order of addition", "src/productions.rs Production.body")],
 [("parts", "src/productions.rs ProductionHead::build, ProductionBody::try_with_chance, Production::add_body, merge"), ("identity by head", "src/productions.rs PartialEq, Hash for Production"), ("iteration", "src/symbols/iterator.rs SymbolIterable")],
 ["Production::{new, head, body, add_body, merge, all_bodies}, Eq, Hash, FromStr", "ProductionHead::{build, pre_context, target, post_context}", "ProductionBody::{new, empty, try_with_chance, chance, string}", "SymbolIterable"])
prop("C30", "An SVG element's text says exactly what it is made of",
 "The text of a circle, of a path, of decorations, of an empty group or document and of the default transformations, read as XML, is one well-formed element with exactly the attributes it was given: centre, radius and points that read back as the same numbers, fill, stroke and stroke width exactly when they are set and with exactly the same text, whatever characters it contains. A circle has a black outline unless it is changed, a path has no colours of its own, a path without points has no data, and a circle with a negative radius is refused.",
 ["inputs", "programs"], "every number, every text and every combination of set and unset attributes",
 "No test writes a circle or reads any written element back.",
 ["src/interpretation/svg.rs"], [], [("attribute text", "src/interpretation/svg.rs SvgDecorations::to_attr_string, escape"), ("elements", "src/interpretation/svg.rs SvgElement for SvgCircle, SvgPath, SvgGroup, Svg; SvgTransformEl")],
 ["SvgCircle::build", "SvgElement::to_svg", "SvgDecorations::to_attr_string", "SvgTransformEl::to_transform"])
prop("C31", "A command line means the same however it is written",
 "The options of the tool's interpret command may stand in any order before or after the file (verbose also before the command), each with its value as the next word, after an `=` or, for the short form, attached, and mean the same: the output path (out.svg if none is given), the width and the height (500). After `--` every word is a file name. An unknown command or option, a missing or superfluous word and a size that is no number end with failure, a message on standard error and no file made or changed. Verbose changes only what is printed. Help and version succeed, print, and touch no file. Describe succeeds, touches no file and prints each symbol of the turtle's alphabet once, under its kind and with its description.",
 ["inputs", "configurations"], "every command line: every sequence of words and options in every spelling",
 "The tool has no tests.",
 ["src/bin/lsystem/cli.rs", "src/bin/lsystem/main.rs", "src/bin/lsystem/describe.rs", "src/bin/lsystem/derive.rs"], [],
 [("declaration of the command line", "src/bin/lsystem/cli.rs Cli, InterpretationArgs, Command"), ("listing of the alphabet", "src/bin/lsystem/describe.rs describe")],
 ["lsystem: exit status, standard output and error, files"])
prop("C32", "An interpretation keeps the settings it was made with",
 "An interpretation has exactly the settings it was made with, whatever is made from it or copied: a turtle its number of iterations and its angle (5 and 22.5 unless given); a drawing its width and height (500 unless given) and the interpretation it draws with (a default one unless given). Its run settings ask for as many iterations as the turtle it is or draws with does (10 where an interpretation says nothing, and by default). The system it offers knows exactly the symbols of its alphabet and has no productions. Interpreting by default is interpreting with the default settings; the null interpretation gives nothing for every string.",
 ["inputs", "histories"], "every sequence of making, wrapping, copying and asking, with every number",
 "No test asks an interpretation for its settings after wrapping or copying it.",
 ["src/interpretation/abop.rs", "src/interpretation/svg.rs", "src/interpretation.rs", "src/system.rs"], [("settings", "iterations, angle, sizes", "src/interpretation/abop.rs AbopTurtleInterpretation, src/interpretation/svg.rs SvgInterpretation, src/system.rs RunSettings")],
 [("settings of a drawing passed on", "src/interpretation/svg.rs SvgInterpretation::run_settings, system"), ("defaults", "Default for AbopTurtleInterpretation, SvgInterpretation, RunSettings; src/interpretation.rs Interpretation default methods")],
 ["Interpretation::run_settings", "Interpretation::system", "Interpretation::default_interpret", "AbopTurtleInterpretation::n, delta", "SvgInterpretation::width, height, interpretation"])
prop("C33", "An error says what was wrong",
 "An error made from a message shows exactly that message, one about a definition after `Definition error: `; one made from another error (input/output, a number that cannot be read) shows that error's message and has that error as its source; no other error has a source. A copy shows the same and has the same source. The error for a family that is not registered or registered already, for an unknown plant setting, an unknown symbol code or a production without an arrow contains the name, line, code or text at fault; the error for a plant file that cannot be opened or a malformed number in it is the file's or the number's own.",
 ["inputs", "histories"], "every message, every source error, every failing call with every name at fault, every sequence of copies",
 "The tests only ask whether a call failed, never what its error says.",
 ["src/error.rs", "src/symbols.rs", "src/system/family.rs", "src/interpretation/abop/parser.rs", "src/productions.rs", "src/parser.rs"], [],
 [("message, kind and source", "src/error.rs Error, ErrorKind, From"), ("messages", "src/system/family.rs get_family, try_register; src/symbols.rs TryFrom<u32>; src/interpretation/abop/parser.rs; src/parser.rs")],
 ["Error Display", "std::error::Error::source", "Error Clone"])
prop("C34", "A token says what its text is",
 "A token of production text has the text it was made from, the place given to it and the kind that its text has: `;` or no text ends a statement, `->`, `<` and `>` separate, anything else is a symbol. It prints as its text (`EOS` when it has none), a kind as its own text. It becomes the symbol of its text exactly when its kind is symbol and its text is not blank, and otherwise an error.",
 ["inputs"], "every text, every place",
 "The tests tokenise a few texts; which kind a text has is asked for one-character punctuation only.",
 ["src/parser/token.rs", "src/parser/iterator.rs"], [], [("kind of a text", "src/parser/token.rs Token, TokenKind"), ("conversion to a symbol", "src/parser/token.rs TryFrom<Token> for Symbol")],
 ["Token, TokenKind", "parser::iterator::TokenIterator", "Symbol::try_from(Token)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
