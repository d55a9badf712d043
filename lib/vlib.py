"""Shared machinery of the checks: building, running TLC, running the
conformance drivers, judging, evidence.

Exit codes of a check: 0 held, 1 violated (with a VIOLATION line), 2 the check
itself could not be carried out."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    env["RUSTFLAGS"] = "-Awarnings"
    return env


def cargo_build(crate, *args):
    """Builds one crate of the harness (or of the repository) from the current tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", *args], cwd=crate, env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.replayed = 0          # generated behaviours carried out on the real code
        self.nontrivial = 0
        self.validated = 0         # recorded behaviours of the real code accepted by TLC
        self.samples, self.notes, self.violations = [], [], []
        self.runs = {}
        self.known = load_known(prop)
        self.scratch = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self.ev_path = os.path.join(VERIF, "evidence", prop + ".json")
        if os.path.exists(self.ev_path):
            os.unlink(self.ev_path)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    # --- building ---------------------------------------------------------
    def build(self, crate="conf", *args):
        rc, out = cargo_build(os.path.join(VERIF, "harness", crate), *args)
        if rc != 0:
            raise ToolError("building harness/%s failed:\n%s" % (crate, out[-4000:]))
        return os.path.join(TARGET, "debug", crate)

    def build_tool(self):
        """The lsystem tool itself, from the current tree."""
        rc, out = cargo_build(REPO, "--features", "lsystem", "--bin", "lsystem")
        if rc != 0:
            raise ToolError("building the lsystem tool failed:\n" + out[-4000:])
        return os.path.join(TARGET, "debug", "lsystem")

    # --- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, workers=8, env=None, extra=(), timeout=700, heap="6g", out=None,
            expect_error=False, subst=None):
        """Runs TLC on specs/<module>.tla. consts overrides CONSTANT values of the cfg.
        Returns the path of its output."""
        cfg = cfg or module + ".cfg"
        text = open(os.path.join(SPECS, cfg)).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + v, text)
            if n != 1:
                raise ToolError("cfg %s: constant %s occurs %d times" % (cfg, k, n))
        for k, v in (subst or {}).items():
            text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*<-\s*).*$" % re.escape(k), lambda m: m.group(1) + v, text)
            if n != 1:
                raise ToolError("cfg %s: substitution %s occurs %d times" % (cfg, k, n))
        tag = "%s-%d" % (module, len(self.runs))
        cfgp = self.path(tag + ".cfg")
        open(cfgp, "w").write(text)
        outp = out or self.path(tag + ".out")
        meta = self.path(tag + ".meta")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + SPECS, "-cp", TLA_CP,
               "tlc2.TLC", "-config", cfgp, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra,
               os.path.join(SPECS, module + ".tla")]
        t = time.time()
        with open(outp, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=self.scratch, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s ran into its time limit of %ds" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        tail = subprocess.run(["tail", "-c", "6000", outp], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", tail)
        if not m and "-simulate" in extra:
            m = [(a, a) for a in re.findall(r"The number of states generated: ([\d,]+)", tail)]
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        self.runs[tag] = dict(module=module, states=dist, transitions=gen, wall_s=round(time.time() - t, 1))
        if p.returncode != 0 and not expect_error:
            lines = [l for l in tail.split("\n") if not l.startswith('"@@')]
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, p.returncode, "\n".join(lines[-60:])))
        self.last_rc = p.returncode
        return outp

    # --- drivers ----------------------------------------------------------
    def drive(self, binary, *args, env=None, timeout=600, mem_gb=8, kind="replay", record=False):
        """Runs a driver; returns its report. A driver that dies or hangs inside a call
        into the code under test is a violation by that call."""
        e = dict(os.environ)
        last = self.path("lastcase")
        if os.path.exists(last):
            os.unlink(last)
        e.update(VERIF_LASTCASE=last, RUST_BACKTRACE="0", **(env or {}))
        limit = mem_gb << 30

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        cmd = [binary, *[str(a) for a in args]]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.scratch,
                               timeout=timeout, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            raise ToolError("driver %s ran into its time limit" % " ".join(cmd))
        out = p.stdout.decode("utf-8", "replace").strip().split("\n")
        rep = None
        if out[-1]:
            try:
                rep = json.loads(out[-1])
            except ValueError:
                rep = None
        if p.returncode == 97 and rep and "hang" in rep:
            self.violation({"case": rep["hang"], "expected": "the call returns", "got": "no return within 60 s", "cmd": cmd})
            return {"cases": 0, "mismatch_count": 1, "mismatches": [], "samples": [], "extra": {}, "dead": True}
        if p.returncode < 0 or p.returncode in (101, 134, 139):
            case = ""
            if os.path.exists(last):
                case = open(last, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
            if case:
                self.violation({"case": case, "expected": "the call returns", "cmd": cmd,
                                "got": "the process died (status %d): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-500:])})
                return {"cases": 0, "mismatch_count": 1, "mismatches": [], "samples": [], "extra": {}, "dead": True}
        if p.returncode != 0 or rep is None:
            raise ToolError("driver %s ended with %d:\n%s" % (" ".join(cmd), p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]))
        self.runs["%s-%d" % (args[0], len(self.runs))] = dict(driver=args[0], cases=rep["cases"], wall_s=round(time.time() - t, 1), **rep.get("extra", {}))
        self.nontrivial += rep.get("nontrivial", 0)
        if not record:
            self.replayed += rep["cases"]
        for s in rep["samples"]:
            self.sample(s)
        for m in rep["mismatches"]:
            self.violation(m)
        if rep["mismatch_count"] > len(rep["mismatches"]):
            self.notes.append("%d more mismatches of %s" % (rep["mismatch_count"] - len(rep["mismatches"]), args[0]))
        return rep

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    # --- trace validation -------------------------------------------------
    def validate(self, module, trace, consts=None, workers=1, corrupt=None, what="trace", timeout=700, cfg=None):
        """Lets TLC decide whether each recorded behaviour in the ndjson file is one the
        specification allows. TLC prints @@ACC n / @@REJ n [why] for record n.
        corrupt(record) -> record made wrong (or None): appended, and must be rejected."""
        recs = [json.loads(l) for l in open(trace)]
        n = len(recs)
        if n == 0:
            raise ToolError("no records in " + trace)
        bad = []
        if corrupt:
            for r in recs[:400]:
                c = corrupt(json.loads(json.dumps(r)))
                if c is not None:
                    bad.append(c)
                if len(bad) >= 12:
                    break
            if not bad:
                raise ToolError("nothing to corrupt in " + trace)
            with open(trace, "a") as f:
                for c in bad:
                    f.write(json.dumps(c) + "\n")
        outp = self.tlc(module, cfg=cfg, consts=consts, workers=workers, env={"TRACE": trace}, timeout=timeout)
        acc, rej = set(), {}
        for l in open(outp, errors="replace"):
            if l.startswith('"@@ACC '):
                acc.add(int(l.split()[1].strip('"\n')))
            elif l.startswith('"@@REJ '):
                s = json.loads(l)
                k = int(s.split()[1])
                rej[k] = s
        for k in range(1, n + len(bad) + 1):
            if k not in acc and k not in rej:
                rej[k] = "not a behaviour of the specification"
            elif k in acc:
                rej.pop(k, None)
        for k in range(n + 1, n + len(bad) + 1):
            if k not in rej:
                raise ToolError("%s accepted a corrupted record: %s" % (module, json.dumps(bad[k - n - 1])[:600]))
        for k in sorted(rej):
            if k <= n:
                self.violation({"case": recs[k - 1], "expected": "a behaviour of specs/%s.tla" % module, "got": rej[k]})
        self.validated += len([k for k in acc if k <= n and k not in rej])
        self.runs[list(self.runs)[-1]]["validated"] = n
        self.runs[list(self.runs)[-1]]["corrupted_rejected"] = len(bad)

    # --- verdict ----------------------------------------------------------
    def violation(self, v):
        text = json.dumps(v, sort_keys=True, ensure_ascii=False)
        for k in self.known:
            if k in text:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
                return
        self.violations.append(v)

    def finish(self, rule="", assumptions=(), explanation=None, exhaustive=False):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.replayed + self.validated,
                                behaviours_replayed=self.replayed, recorded_behaviours_accepted=self.validated,
                                nontrivial_replays=self.nontrivial, rule=rule, samples=self.samples or ["none"], runs=self.runs,
                                notes=self.notes),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.dirname(self.ev_path), exist_ok=True)
        json.dump(ev, open(self.ev_path, "w"), indent=1, ensure_ascii=False)
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", self.prop + ".json")
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=self.violations[:20]), open(rp, "w"), indent=1, ensure_ascii=False)
            v = self.violations[0]
            print("%s: %d violation(s); the first:" % (self.prop, len(self.violations)))
            for k in ("case", "expected", "got"):
                print("  %-9s %s" % (k, json.dumps(v.get(k), ensure_ascii=False)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            rc = 1
        else:
            print("%s held: %d states, %d transitions; %d behaviours replayed, %d recorded behaviours accepted (%.1fs)" %
                  (self.prop, self.states, self.transitions, self.replayed, self.validated, time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def load_known(prop):
    """Lines `known: property=<id> match=<text> ...` of known_findings.txt: a violation whose
    record contains <text> is a recorded finding. `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?)(?: -- .*)?$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out
