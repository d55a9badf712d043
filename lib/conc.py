"""Concurrent client programs: generated by TLC, run on the real code under controlled
schedules, their histories judged by TLC."""
import json, os, random, resource, subprocess, time
from vlib import ToolError, VERIF, TARGET, cargo_build

SHARDS = 8


def programs(c, domain, threads, per, total, sample=None, salt=0, walks=None):
    """All the programs within the bounds (or those that random walks of the specification reach), or a sample."""
    extra = ("-simulate", "num=%d" % walks, "-depth", str(total + 1), "-seed", str(c.seed + 100 * salt)) if walks else ()
    out = c.tlc("Clients", consts={"Domain": '"%s"' % domain, "MaxThreads": str(threads), "MaxPer": str(per), "MaxTotal": str(total)}, extra=extra,
                workers=1 if walks else 8)
    ps = sorted(set(json.dumps(json.loads(json.loads(l)[2:]), sort_keys=True) for l in open(out, errors="replace") if l.startswith('"@@{')))
    if sample and len(ps) > sample:
        ps = random.Random(c.seed * 1009 + salt).sample(ps, sample)
    return ps


def binary(c):
    """(path, controlled?). If the library does not build against the scheduled std (it uses
    something of std that the replacement lacks), the programs run on free threads instead."""
    try:
        return c.build("sched"), True
    except ToolError as e:
        c.notes.append("no controlled schedules: " + str(e)[:1500])
        return c.build("stress"), False


def run(c, bin_, controlled, plan, hang_is_violation=False):
    """plan: list of (mode, programs, bound, limit). Returns the file of distinct histories."""
    seen = set()
    merged = c.path("histories.ndjson")
    with open(merged, "w") as mf:
        for k, (mode, ps, bound, limit) in enumerate(plan):
            pf = c.path("programs-%d.jsonl" % k)
            random.Random(7).shuffle(ps)
            open(pf, "w").write("".join(p + "\n" for p in ps))
            t = time.time()
            procs = []
            for s in range(SHARDS if controlled else 2):
                of = c.path("h-%d-%d.ndjson" % (k, s))
                cmd = [bin_, mode, pf, of, str(bound), str(limit), str(s), str(SHARDS)] if controlled else [bin_, pf, of, str(max(3, min(300, 60000 // max(1, len(ps)))))]
                ef = open(c.path("h-%d-%d.err" % (k, s)), "w+")
                po = open(c.path("h-%d-%d.rep" % (k, s)), "w+")
                procs.append((subprocess.Popen(cmd, stdout=po, stderr=ef, cwd=c.scratch, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0))), of, po, ef, cmd))
            tot = dict(cases=0, nontrivial=0, programs=0, distinct_histories=0, programs_cut_short=0, most_schedules_of_a_program=0)
            for p, of, po, ef, cmd in procs:
                try:
                    rc = p.wait(timeout=c.q(500, 7200))
                except subprocess.TimeoutExpired:
                    for q in procs:
                        q[0].kill()
                    raise ToolError("client programs ran into their time limit")
                po.seek(0)
                lines = po.read().strip().split("\n")
                rep = json.loads(lines[-1]) if lines and lines[-1].startswith("{") else None
                if rc == 98 and rep and "stuck" in rep:
                    st = rep["stuck"]
                    if hang_is_violation:
                        c.violation({"case": {"program": st["program"], "schedule": st.get("schedule", "free")}, "expected": "every call returns",
                                     "got": {"how": st["how"], "calls that do not return": st["calls that do not return"]}, "cmd": cmd})
                    else:
                        c.notes.append("a program got stuck (judged by C13): " + json.dumps(st)[:800])
                elif rc != 0 or rep is None:
                    ef.seek(0)
                    raise ToolError("%s ended with %s: %s" % (" ".join(cmd), rc, ef.read()[-2000:]))
                else:
                    tot["cases"] += rep["cases"]
                    tot["nontrivial"] += rep["nontrivial"]
                    for s in rep["samples"]:
                        c.sample(s)
                    e = rep["extra"]
                    for key in ("programs", "distinct_histories", "programs_cut_short"):
                        tot[key] += e.get(key, 0)
                    tot["most_schedules_of_a_program"] = max(tot["most_schedules_of_a_program"], e.get("most_schedules_of_a_program", 0))
                for l in open(of, errors="replace"):
                    l = l.strip()
                    if l and l not in seen and l.endswith("}"):
                        try:
                            json.loads(l)
                        except ValueError:
                            continue
                        seen.add(l)
                        mf.write(l + "\n")
                os.unlink(of)
            c.replayed += tot["cases"]
            c.nontrivial += tot["nontrivial"]
            c.runs["%s-%d" % (mode if controlled else "free", len(c.runs))] = dict(driver=mode if controlled else "free-running threads", bound=bound, limit=limit, wall_s=round(time.time() - t, 1), **tot)
    return merged, len(seen)


def judge(c, module, trace, n, corrupt, consts=None, cap=None):
    """Lets TLC judge the distinct histories."""
    if n == 0:
        if c.notes:
            raise ToolError("no history was recorded: %s" % c.notes[-1])
        raise ToolError("no history was recorded")
    if cap and n > cap:
        ls = random.Random(c.seed).sample(open(trace).read().splitlines(), cap)
        open(trace, "w").write("\n".join(ls) + "\n")
        c.notes.append("%d of %d distinct histories judged" % (cap, n))
    c.validate(module, trace, consts=consts, workers=8, corrupt=corrupt, timeout=c.q(500, 7200))


def sharded(c, bin_, cmd, files, n, trace):
    """A recording driver over all cores; its records are appended to the trace."""
    t = time.time()
    procs = []
    for s in range(SHARDS):
        of = c.path("%s-%d" % (cmd, s))
        full = [bin_, cmd, *files, of, str(n), str(s), str(SHARDS)]
        ef = open(of + ".err", "w+")
        po = open(of + ".rep", "w+")
        procs.append((subprocess.Popen(full, stdout=po, stderr=ef, cwd=c.scratch), of, po, ef, full))
    tot = dict(cases=0, nontrivial=0)
    with open(trace, "a") as mf:
        for p, of, po, ef, full in procs:
            try:
                rc = p.wait(timeout=c.q(600, 7200))
            except subprocess.TimeoutExpired:
                for q in procs:
                    q[0].kill()
                raise ToolError("%s ran into its time limit" % cmd)
            po.seek(0)
            lines = po.read().strip().split("\n")
            if rc != 0 or not lines[-1].startswith("{"):
                ef.seek(0)
                raise ToolError("%s ended with %s: %s" % (" ".join(full), rc, ef.read()[-2000:]))
            rep = json.loads(lines[-1])
            tot["cases"] += rep["cases"]
            tot["nontrivial"] += rep["nontrivial"]
            for k, v in rep["extra"].items():
                tot[k] = tot.get(k, 0) + v
            for s in rep["samples"]:
                c.sample(s)
            for m in rep["mismatches"]:
                c.violation(m)
            mf.write(open(of).read())
    c.replayed += tot["cases"]
    c.nontrivial += tot["nontrivial"]
    c.runs["%s-%d" % (cmd, len(c.runs))] = dict(driver=cmd, wall_s=round(time.time() - t, 1), **tot)
