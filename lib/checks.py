"""One function per property. See DESIGN.md for what each decides and how."""
import json, math, os, random, re, shutil, subprocess
import clirun, conc, elements, svgdoc
from vlib import Check, ToolError, VERIF, REPO

ALL_CLASSES = '{"w", "s", "<", ">", "-", ";", "+", "("}'


def C03(c):
    b = c.build()
    # 8 classes up to length 5, and the 6 that matter for reserved tokens up to length 6 (8 in the thorough tier)
    out = c.tlc("LexerGen", consts={"MaxLen": c.q("6", "7")})
    c.drive(b, "lex-replay", out, c.q(2, 4))
    out = c.tlc("LexerGen", consts={"Alphabet": ALL_CLASSES, "MaxLen": c.q("5", "6")})
    c.drive(b, "lex-replay", out, c.q(3, 6))
    # every character of every class, in every place of the short texts
    out = c.tlc("LexerGen", consts={"Alphabet": '{"w", "s", "-"}', "MaxLen": c.q("3", "4")})
    c.drive(b, "lex-sweep", out)
    tr = c.path("lex.ndjson")
    c.drive(b, "lex-record", tr, c.q(3000, 40000), record=True)

    def corrupt(r):
        if len(r["toks"]) < 2:
            return None
        k = len(r["toks"]) % 3
        if k == 0:
            r["toks"].pop()
        elif k == 1:
            r["toks"][0][0] += 1
        else:
            r["p"] = {"k": "ok" if r["p"]["k"] != "ok" else "error", "n": r["p"]["n"]}
        return r
    c.validate("LexerTrace", tr, corrupt=corrupt)
    return c.finish(rule="every text over the character classes up to the bound, with ASCII and Unicode characters; non-trivial: two or more tokens")


def C06(c):
    b = c.build()
    out = c.tlc("LexerGen", consts={"MaxLen": c.q("6", "7")})
    c.drive(b, "lex-roundtrip", out, c.q(2, 4))
    tr = c.path("lex.ndjson")
    c.drive(b, "lex-record", tr, c.q(2000, 30000), record=True)

    def corrupt(r):
        if r["rt"] != "same":
            return None
        r["rt"] = "different"
        return r
    c.validate("LexerTrace", tr, corrupt=corrupt)
    return c.finish(rule="every parsable text over the character classes up to the bound; non-trivial: two or more symbols")


def C07(c):
    b = c.build()
    out = c.tlc("Match", consts={"MaxLen": c.q("6", "7")})
    c.drive(b, "match-replay", out)
    out = c.tlc("Match", consts={"Syms": '{"A", "B", "C"}', "MaxCtx": c.q("1", "2"), "MaxLen": c.q("5", "5")})
    c.drive(b, "match-replay", out)
    if c.thorough:
        out = c.tlc("Match", consts={"MaxCtx": "3", "MaxLen": "7"})
        c.drive(b, "match-replay", out)
    c.tlc("DeriveRunsMC", consts=c.q({}, {"W": "2", "MaxRuns": "3", "MaxRun": "6"}))
    tr = c.path("match.ndjson")
    c.drive(b, "derive-record", tr, c.q(1500, 20000), "match", record=True)

    def corrupt(r):
        if r["kind"] != "match" or not r["s"] or not isinstance(r["hits"][0], list):
            return None
        h = r["hits"][len(r["s"]) % len(r["hits"])]
        h.pop() if h else h.append(1 + len(r["s"]) // 2)
        return r
    c.validate("DeriveTrace", tr, corrupt=corrupt)
    return c.finish(rule="every head with contexts up to the bound (absent, empty, 1..k symbols) on every string up to the bound, at every position inside and outside; non-trivial: a head with a context that matches somewhere")


def corrupt_result(r):
    if r["k"] != "ok" or r["kind"] == "runs":
        return None
    if len(r["res"]) % 2:
        r["res"].pop()
    else:
        r["res"].append("A")
    return r


def C08(c):
    b = c.build()
    c.tlc("DeriveMC", consts=c.q({}, {"MaxLen": "4"}))
    c.tlc("DeriveRunsMC", consts=c.q({"MaxRun": "3"}, {"W": "0", "MaxRuns": "3", "MaxRun": "3", "MaxProds": "2"}))
    out = c.tlc("DeriveGen", consts={"MaxLen": c.q("4", "6")})
    c.drive(b, "derive-replay", out, "once")
    # three productions over the heads with contexts absent or one symbol
    out = c.tlc("DeriveGen", consts={"MaxProds": "3", "Syms": '{"A", "B"}', "MaxCtx": "0", "MaxBody": "1", "MaxLen": "3"})
    c.drive(b, "derive-replay", out, "once")
    if c.thorough:
        out = c.tlc("DeriveGen", consts={"MaxProds": "1", "MaxCtx": "2", "MaxBody": "2", "MaxLen": "6"})
        c.drive(b, "derive-replay", out, "once")
        out = c.tlc("DeriveGen", consts={"Syms": '{"A", "B", "C"}', "MaxProds": "2", "MaxCtx": "0", "MaxBody": "2", "MaxLen": "4"})
        c.drive(b, "derive-replay", out, "once")
    tr = c.path("once.ndjson")
    c.drive(b, "derive-record", tr, c.q(2000, 20000), "once", record=True)
    c.validate("DeriveTrace", tr, corrupt=corrupt_result)
    c.tlc("OutcomesMC", consts=c.q({"MaxIter": "1"}, {"MaxBodies": "2", "MaxIter": "2", "Chances": "{0, 1, 2, 3, 4}"}))
    outcomes(c, [({"Iters": "{1}"}, {}, 1), ({"Iters": "{1}", "MaxBodies": "3", "Chances": "{0, 1, 3}", "MaxLen": "1"}, {}, c.q(8, 1)),
                 ({"Iters": "{1}", "MaxProds": "2", "MaxBodies": "3", "MaxCtx": "1", "MaxBody": "1", "Chances": "{0, 2}", "Syms": '{"A"}'}, {}, c.q(2, 1))], c.q(800, 4000))
    return c.finish(rule="every system of up to the bound's productions on every string up to the bound, through all four entry points; non-trivial: the step changes the string")


def C09(c):
    b = c.build()
    c.tlc("DeriveMC", consts={"MaxProds": "1", "MaxIter": c.q("3", "4"), "MaxLen": "3"})
    out = c.tlc("DeriveGen", consts={"MaxProds": "2", "MaxCtx": "0", "MaxBody": "2", "MaxLen": "2", "Iters": "11", "MaxStr": "40"})
    c.drive(b, "derive-replay", out, "n")
    out = c.tlc("DeriveGen", consts={"MaxProds": c.q("1", "2"), "MaxCtx": "1", "MaxBody": c.q("2", "1"), "MaxLen": c.q("4", "3"), "Iters": "11", "MaxStr": "40"})
    c.drive(b, "derive-replay", out, "n")
    tr = c.path("n.ndjson")
    c.drive(b, "derive-record", tr, c.q(1000, 10000), "n", record=True)
    c.validate("DeriveTrace", tr, corrupt=corrupt_result)
    c.tlc("OutcomesMC", consts=c.q({"Chances": "{0, 1, 2}"}, {"Chances": "{0, 1, 2, 3}"}))
    outcomes(c, [({"Iters": "{2, 3}"}, {}, 1), ({"Iters": "{2}", "MaxProds": "2", "MaxBodies": "3", "Chances": "{0, 2}"}, {}, c.q(30, 1))], c.q(800, 4000))
    return c.finish(rule="every system up to the bound on every string up to the bound, for every number of iterations up to 11 (fewer where the string outgrows 40 symbols), in one go and in two parts; non-trivial: the step changes the string")


def random_systems(c, n, iters, length):
    """Larger systems with several bodies, for the frequencies of one or two steps."""
    rng = random.Random(c.seed * 31 + iters)
    syms = ["A", "B", "C", "D"]
    out = []
    while len(out) < n:
        k = rng.randrange(2, 5)
        string = lambda m: [rng.choice(syms[:k]) for _ in range(rng.randrange(m + 1))]
        ctx = lambda: [] if rng.random() < .6 else [string(2)]
        ps, heads = [], set()
        for _ in range(rng.randrange(1, 5)):
            p = dict(l=ctx(), t=rng.choice(syms[:k]), r=ctx(), bs=[], w=[])
            if json.dumps([p["l"], p["t"], p["r"]]) in heads:
                continue
            heads.add(json.dumps([p["l"], p["t"], p["r"]]))
            m = rng.choice([1, 1, 2, 2, 3, 4, 6] if iters == 1 else [1, 1, 2, 2])
            left, open_ = 4, 1
            for j in range(m):
                v = rng.choice([-1, 0, 1, 1, 2, 3] + ([4] if rng.random() < .1 else []))
                if v == -1:
                    v, open_ = (v, 0) if open_ else (1, 0)
                if v > left and rng.random() < .95:
                    v = left
                left -= max(0, v)
                p["bs"].append(string(3 if iters == 1 else 1))
                p["w"].append(v)
            ps.append(p)
        s = [rng.choice(syms[:k]) for _ in range(rng.randrange(1, length + 1))]
        out.append(dict(ps=ps, u=4, runs=[[s, iters]]))
    return out


def outcomes(c, gens, n):
    """Frequencies of the outcomes of derivations with several bodies: the systems that
    OutcomesGen builds (and larger random ones), each derived n times, judged by OutcomesTrace."""
    b, _ = conc.binary(c)
    tr = c.path("outcomes.ndjson")
    open(tr, "w").close()
    cases = c.path("outcome-cases")
    with open(cases, "w") as f:
        for consts, subst, every in gens:
            out = c.tlc("OutcomesGen", consts=consts, subst=subst)
            ls = sorted(l for l in open(out, errors="replace") if l.startswith('"@@'))
            f.writelines(ls[c.seed % every::every])
        for r in random_systems(c, c.q(150, 3000), 1, 6) + random_systems(c, c.q(100, 2000), 2, 2):
            f.write(json.dumps("@@" + json.dumps(r)) + "\n")
    conc.sharded(c, b, "outcomes", [cases], n, tr)

    def corrupt(r):
        if len(r["counts"]) < 2:
            return None
        a, b = r["counts"][0], r["counts"][1]
        d = min(b[1], r["m"] // 2)
        if d < r["m"] // 4:
            return None
        a[1], b[1] = a[1] + d, b[1] - d
        return r
    c.validate("OutcomesTrace", tr, corrupt=corrupt, workers=8)


STORES = {"one": ("One", "StartsOne"), "two": ("Two", "StartsTwo"), "own": ("Own", "StartsOwn"), "mixed": ("Mixed", "StartsMixed")}


def store_gen(c, kind, prods, ops, names='{"A", "B", "C", "D"}'):
    """Every history of Store up to the bound, on the given stores."""
    st, starts = STORES[kind]
    # the constants are definitions of StoreGen: override with <-
    return c.tlc("StoreGen", subst={"Stores": st, "Starts": starts, "Productions": prods}, consts={"MaxOps": str(ops), "Names": names})


def store_corrupt(kind):
    def corrupt(r):
        h = r["h"]
        for e in reversed(h[1:]):
            a = e["after"]
            if not a:
                continue
            if kind == "symbols":
                a[0]["n"] += 1
                return r
            if kind == "own":
                if a[2]["list"]:
                    a[2]["list"].pop()
                    return r
            if kind == "productions" and e["o"] in ("prod", "pap") and e["s"] < 3 and isinstance(e["res"], dict):
                bs = e["res"]["bs"]
                if len(bs) > 1:
                    bs.pop(0)
                    return r
        return None
    return corrupt


def store_check(c, what, obs, gens, n):
    b = c.build()
    for g in gens:
        c.drive(b, "store-replay", store_gen(c, *g), what)
    tr = c.path("store.ndjson")
    c.drive(b, "store-record", tr, n, record=True)
    c.validate("StoreTrace", tr, consts={"Obs": obs}, corrupt=store_corrupt(what))


def C11(c):
    store_check(c, "productions", '{"productions"}',
                [("one", "MCProductions", c.q(4, 5)), ("two", "MCProductions2", c.q(4, 5)), ("one", "MCProductions3", c.q(4, 5)), ("one", "MCProductions4", c.q(3, 5)), ("one", "MCProductions5", c.q(3, 4))], c.q(250, 3000))
    return c.finish(rule="every history of calls up to the bound (one test per transition of the specification); non-trivial: three or more calls")


def C14(c):
    store_check(c, "symbols", '{"symbols"}',
                [("one", "MCProductions", c.q(4, 5)), ("two", "MCProductions2", c.q(4, 5)), ("one", "MCProductions3", c.q(3, 5)), ("one", "MCProductions4", c.q(3, 5))], c.q(150, 3000))
    return c.finish(rule="every history of calls up to the bound (one test per transition of the specification); non-trivial: three or more calls")


def C25(c):
    store_check(c, "own", '{"own"}', [("own", "MCProductions", c.q(4, 5)), ("mixed", "MCProductions2", c.q(4, 5)), ("own", "MCProductions4", c.q(3, 5))], c.q(150, 3000))
    c.drive(c.build(), "store-iterate", c.q(5000, 50000))
    return c.finish(rule="every history of calls up to the bound on a symbol set and a production list, alone and next to a system; non-trivial: three or more calls")


def C16(c):
    b = c.build()
    out = c.tlc("Family", consts={"MaxDefs": c.q("4", "5")})
    c.drive(b, "family-replay", out)
    out = c.tlc("Family", consts={"Names": '{"A", "B", "C", "D"}', "Descriptions": '{"", "one"}', "MaxDefs": c.q("3", "4")})
    c.drive(b, "family-replay", out)
    tr = c.path("families.ndjson")
    c.drive(b, "family-record", tr, c.q(300, 4000), record=True)

    def corrupt(r):
        if not r["terms"]:
            return None
        r["terms"][0]["d"] += "!"
        return r
    c.validate("FamilyDefTrace", tr, corrupt=corrupt)
    return c.finish(rule="every sequence of definitions up to the bound, and systems of the family by value, by reference and by name; non-trivial: three or more definitions (recorded: more than five)")


def C24(c):
    b = c.build()
    for kind, prods, n in (("one", "MCProductions", c.q(4, 5)), ("mixed", "MCProductions2", c.q(4, 5)), ("one", "MCProductions3", c.q(3, 4))):
        c.drive(b, "store-replay", store_gen(c, kind, prods, n), "failures")
    c.drive(b, "family-registry", c.tlc("FamilyRegGen", consts={"MaxOps": c.q("4", "5")}), "failures")
    tr = c.path("store.ndjson")
    c.drive(b, "store-record", tr, c.q(200, 4000), 1, "hot", record=True)

    def corrupt(r):
        for k, e in enumerate(r["h"]):
            if k and e["err"]:
                e["after"][0]["n"] += 1
                return r
        return None
    c.validate("StoreTrace", tr, consts={"Obs": '{"failures"}'}, corrupt=corrupt)
    return c.finish(rule="every history of calls up to the bound that contains failing calls (malformed productions, blank and unknown symbols, duplicate and blank families, derivations whose chances exceed 1): everything observable before and after each; non-trivial: three or more calls")


def C04(c):
    b = c.build()
    c.tlc("Text", cfg="TextMC.cfg")
    out = c.tlc("Text", consts={"MaxLen": c.q("4", "5")})
    c.drive(b, "text-replay", out, c.q(2, 3))
    out = c.tlc("Text", consts={"Fragments": '{"w", "s", "<", ">", "-", "num", ";"}', "MaxLen": c.q("6", "7")})
    c.drive(b, "text-replay", out, 1)
    # the same many thousand times over
    out = c.tlc("Text", consts={"MaxLen": "3"})
    c.drive(b, "text-huge", out, c.q(12, 2))
    tr = c.path("text.ndjson")
    c.drive(b, "text-record", tr, c.q(2000, 40000), record=True)

    def corrupt(r):
        r["got"][3] = "panic: boo"
        return r
    c.validate("TextTrace", tr, corrupt=corrupt)
    return c.finish(rule="every text over the fragments up to the bound (concretised with ASCII and Unicode characters and extreme numbers) at eight entry points; non-trivial: calls that accepted their text")


def C05(c):
    b = c.build()
    out = c.tlc("GrammarGen", consts={"MaxLen": c.q("6", "7")})
    c.drive(b, "prod-replay", out, c.q(3, 4))
    tr = c.path("prod.ndjson")
    c.drive(b, "prod-record", tr, c.q(3000, 40000), record=True)

    def corrupt(r):
        g = r["got"]
        if g["v"] != "ok" or not g["b"]:
            return None
        g["b"].pop()
        return r
    c.validate("GrammarTrace", tr, corrupt=corrupt)
    return c.finish(rule="every sequence of terms up to the bound, concretised with several vocabularies, spacings and numbers; non-trivial: texts that are productions")


def turtle_corrupt(r):
    if r["v"] != "ok" or len(r["segs"]) < 2:
        return None
    r["segs"][len(r["segs"]) // 2][1][0] += 100000
    return r


def C17(c):
    b = c.build()
    c.drive(b, "turtle-replay", c.tlc("TurtleGen", consts=c.q({}, {"K": "6", "MaxLen": "6"})))
    c.drive(b, "turtle-replay", c.tlc("TurtleGen", subst={"Syms": "Seven", "Stores": "AnySubset"}, consts=c.q({"K": "3", "MaxLen": "3"}, {"K": "4", "MaxLen": "4"})))
    tr = c.path("turtle.ndjson")
    c.drive(b, "turtle-record", tr, c.q(250, 4000), record=True)
    c.validate("TurtleTrace", tr, corrupt=turtle_corrupt)
    return c.finish(rule="every string over the turtle's symbols and one other up to the bound, for every set of known symbols, with several turn angles and kinds of symbol store; non-trivial: drawings of two or more segments")


def C18(c):
    b = c.build()
    c.drive(b, "turtle-replay", c.tlc("TurtleGen", subst={"Syms": "Four"}, consts=c.q({"K": "7", "MaxLen": "7"}, {"K": "9", "MaxLen": "9"})))
    c.drive(b, "turtle-replay", c.tlc("TurtleGen", subst={"Syms": "Six", "Stores": "OneMissing"}, consts=c.q({"K": "4", "MaxLen": "4"}, {"K": "5", "MaxLen": "5"})))
    tr = c.path("turtle.ndjson")
    c.drive(b, "turtle-record", tr, c.q(250, 4000), record=True)
    c.validate("TurtleTrace", tr, corrupt=turtle_corrupt)
    return c.finish(rule="every string over Forward, +, [ and ] up to the bound (nesting, unclosed and unmatched branches), and over all symbols with one of them unknown; non-trivial: drawings of two or more segments")


def C26(c):
    b = c.build()
    c.drive(b, "plane-replay", c.tlc("PlaneGen", consts={"MaxOps": c.q("4", "5")}))
    c.drive(b, "plane-replay", c.tlc("PlaneGen", consts={"MaxOps": c.q("3", "4"), "Knowns": "{1, 2, 3, 4}"}))
    # turns only: many angles
    c.drive(b, "plane-replay", c.tlc("PlaneGen", subst={"Turns": "ManyTurns", "Offsets": "NoOffsets"}, consts={"Scales": "{}", "Knowns": "{}", "MaxOps": c.q("3", "4")}))
    tr = c.path("plane.ndjson")
    c.drive(b, "plane-record", tr, c.q(200, 3000), record=True)

    def corrupt(r):
        if len(r["log"]) < 6:
            return None
        r["log"][len(r["log"]) // 2]["p"][1] += 1
        return r
    c.validate("PlaneTrace", tr, corrupt=corrupt)
    return c.finish(rule="every sequence of operations up to the bound, on several scales; recorded sequences of up to 64 operations with turns by whole degrees; non-trivial: three or more operations")


def C23(c):
    b = c.build()
    c.drive(b, "bounds-replay", c.tlc("BoundsGen", consts={"MaxPoints": c.q("3", "4")}))
    c.drive(b, "bounds-replay", c.tlc("BoundsGen", consts={"Ys": c.q("{2}", "{0, 2}"), "MaxPoints": c.q("5", "5"), "MaxPaths": c.q("3", "2")}))
    # paths that go the same way again
    c.drive(b, "bounds-replay", c.tlc("BoundsGen", consts={"Xs": "{0, 3}", "Ys": "{0, 2}", "Agains": c.q("{1, 2}", "{1, 2, 3}"), "MaxPoints": c.q("3", "4"), "MaxPaths": "2"}))
    tr = c.path("bounds.ndjson")
    c.drive(b, "bounds-record", tr, c.q(300, 5000), record=True)

    def corrupt(r):
        if r["v"] != "some":
            return None
        r[("box", "comn", "centre2", "size")[len(r["paths"]) % 4]][0] += 1
        return r
    c.validate("BoundsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every collection of paths up to the bound over a lattice, mapped to several scales and offsets (all negative too); non-trivial: two or more points")


LONG = "SvgGenLong.cfg"


def svg_check(c, obs, gens, n):
    """gens: (constants, substitutions, documents per drawing)"""
    b = c.build()
    for consts, every, *cfg in gens:
        docs = c.path("docs.ndjson")
        c.drive(b, "svg-documents", c.tlc("SvgGen", *cfg, consts=consts), docs, every)
        for l in open(docs):
            d = json.loads(l)
            svg_judge(c, obs, d)
    docs, tr = c.path("recorded.ndjson"), c.path("svg.ndjson")
    c.drive(b, "svg-record", docs, n, record=True)
    with open(tr, "w") as f:
        for l in open(docs):
            d = json.loads(l)
            if "failed" in d:
                c.violation({"case": {"width": d["w"], "height": d["h"], "drawing": d["paths"]}, "expected": "a document", "got": d["failed"]})
                continue
            doc = svgdoc.read(d["svg"])
            f.write(json.dumps(dict(w=d["w"], h=d["h"], paths=d["paths"], again=d["again"], saved=d["saved"],
                    doc=dict(wellformed=doc["wellformed"], finite=doc["finite"], why=doc["why"], w=doc["w"], h=doc["h"], cmds=doc["cmds"],
                             paths=svgdoc.lattice(doc, d["s"], d["tx"], d["s"], d["ty"]), img=svgdoc.millis(doc)))) + "\n")

    def corrupt(r):
        if not r["doc"]["img"] or not r["doc"]["img"][0]:
            return None
        r["doc"]["img"][0][0][1] += 50
        r["doc"]["paths"][0][0][0] += 1
        return r
    c.validate("SvgTrace", tr, consts={"Obs": '"%s"' % obs}, corrupt=corrupt)


def svg_judge(c, obs, d):
    case = {"width": d["w"], "height": d["h"], "drawing": d["paths"], "scale": d.get("s"), "offset": [d.get("tx"), d.get("ty")]}
    if "failed" in d:
        return c.violation({"case": case, "expected": "a document", "got": d["failed"]})
    doc = svgdoc.read(d["svg"])
    if not doc["wellformed"]:
        return c.violation({"case": case, "expected": "a well-formed svg document", "got": doc["why"], "svg": d["svg"][:2000]})
    if obs == "fit":
        got = svgdoc.millis(doc)
        ok = doc["finite"] and [len(p) for p in got] == [len(p) for p in d["want"]] and all(
            abs(a - b) <= 5 for p, q in zip(got, d["want"]) for u, v in zip(p, q) for a, b in zip(u, v))
        if not ok:
            c.violation({"case": case, "expected": {"thousandths of pixels": d["want"]}, "got": {"thousandths of pixels": got, "note": doc["why"]}, "svg": d["svg"][:2000]})
        return
    got = [doc["w"], doc["h"], svgdoc.lattice(doc, d["s"], d["tx"], d["s"], d["ty"]), doc["cmds"], d["saved"]]
    want = [d["w"], d["h"], d["paths"], [["M"] * min(1, len(p)) + ["L"] * (len(p) - 1) for p in d["paths"]], "same"]
    if got != want:
        c.violation({"case": case, "expected": want, "got": got, "svg": d["svg"][:2000]})


def C19(c):
    svg_check(c, "fit", [(c.q({}, {"MaxPoints": "4"}), 1), ({"Xs": c.q("{0, 3}", "{0, 1, 3}"), "Widths": "{500, 1, 37}", "Heights": "{500, 2}", "MaxPaths": "1"}, 3),
                         # much longer than wide, on canvases of any shape, and even longer ones
                         ({"MaxPoints": c.q("3", "5")}, 3, LONG), (dict(zip(("Xs", "Ys", "Widths", "Heights"), ("{0, 20000}", "{0, 1}", "{30000, 500, 10}", "{1, 500}"))), 3, LONG),
                         ({"Ys": "{0, 200000}", "Widths": "{1}", "Heights": "{300000, 300}"}, 3, LONG), (dict(zip(("Xs", "Ys", "Widths", "Heights"), ("{0, 200000}", "{0, 1}", "{300000, 300}", "{1}"))), 3, LONG)], c.q(400, 5000))
    return c.finish(rule="every drawing of lattice points up to the bound on several canvases, mapped to scales from 1e-7 to 1e12; the document read with an independent XML parser; non-trivial: two or more points")


def C20(c):
    svg_check(c, "document", [(c.q({"Widths": "{500}"}, {"MaxPoints": "4"}), 1), ({"Xs": "{0, 3}", "Ys": "{0}", "MaxPaths": "3", "MaxPoints": "4"}, 3)], c.q(400, 5000))
    return c.finish(rule="every drawing of lattice points up to the bound, with empty paths, saved over nothing, over a shorter and over a longer file; the document read with an independent XML parser; non-trivial: two or more points")


def C21(c):
    b = c.build()
    c.drive(b, "plant-replay", c.tlc("PlantGen", consts={"MaxLines": "4"}), c.q(1, 4))
    c.drive(b, "plant-replay", c.tlc("PlantGen", subst={"Lines": "Good"}, consts={"MaxLines": c.q("5", "6")}), 1)
    c.drive(b, "plant-replay", c.tlc("PlantGen", subst={"Lines": "Settings"}, consts={"MaxLines": c.q("4", "6")}), c.q(2, 1))
    tr = c.path("plant.ndjson")
    c.drive(b, "plant-record", tr, c.q(800, 10000), record=True)

    def corrupt(r):
        if r["got"]["v"] != "ok":
            return None
        r["got"]["prods"][0]["bs"].append({"c": "", "b": ["X"]})
        return r
    c.validate("PlantTrace", tr, corrupt=corrupt)
    return c.finish(rule="every sequence of lines up to the bound (settings, axioms, productions, blanks and comments, unreadable lines) in several spellings, through parse and parse_file; non-trivial: descriptions that are accepted")


def segments(doc):
    """The lines of a document, in thousandths of a pixel, in the order in which they are drawn."""
    return [[list(p), list(q)] for path in svgdoc.millis(doc) for p, q in zip(path, path[1:])]


def tool_picture(c, tool, k, d, rng):
    """What the lsystem tool makes of the description."""
    t = c.path("tool-%d" % k)
    os.makedirs(t)
    src, out = os.path.join(t, "plant.txt"), os.path.join(t, "picture.svg")
    open(src, "w", newline="").write(d["text"])
    size = [["--width=%d" % d["w"], "--height", str(d["h"])], ["--height=%d" % d["h"], "--width", str(d["w"])]][k % 2]
    if d["w"] == 500 and k % 3 == 0:
        size = ["--height", str(d["h"])]
    if d["h"] == 500 and k % 3 == 1:
        size = ["--width", str(d["w"])]
    args = [tool, "interpret", src, "-o", out] + size + (["--verbose"] if k % 5 == 0 else [])
    got = {"v": "error"}
    try:
        p = subprocess.run(args, cwd=t, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        if p.returncode == 0:
            got = {"v": "ok", "svg": open(out, newline="").read()} if os.path.exists(out) else {"v": "success, but no document"}
        elif p.returncode != 1 or os.path.exists(out):
            got = {"v": "exit %d, %s" % (p.returncode, "a document" if os.path.exists(out) else p.stderr[-200:].decode("utf-8", "replace"))}
    except subprocess.TimeoutExpired:
        got = {"v": "no exit within 30 s"}
    shutil.rmtree(t)
    got["ways"] = ["lsystem"]
    return got


def pictures(want, w, h):
    """The lines of the drawing on the canvas, in pixels, for each set of points it may be made
    to fit by.  want says how many steps in which direction lead to each end of a line."""
    def at(counts):
        x = y = 0.0
        for turns, steps in counts:
            a = math.radians(turns * want["delta"])
            x, y = x - steps * math.sin(a), y + steps * math.cos(a)
        return x, y
    segs = [[at(p), at(q)] for p, q in want["exact"]]
    for extra in ([], [(0.0, 0.0)], [at(want["end"])], [(0.0, 0.0), at(want["end"])]):
        pts = [p for s in segs for p in s] + extra
        x0, x1, y0, y1 = min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)
        k = min(w / (x1 - x0) if x1 > x0 else math.inf, h / (y1 - y0) if y1 > y0 else math.inf)
        yield [[(w / 2 + k * (x - (x0 + x1) / 2), h / 2 - k * (y - (y0 + y1) / 2)) for x, y in s] for s in segs]


def drawn_exactly(doc, want, w, h):
    got = [[p, q] for path in doc["img"] for p, q in zip(path, path[1:])]
    if not want["exact"]:
        return got == []
    return any(len(p) == len(got) and all(abs(a - b) <= 1e-6 * max(w, h) for s, t in zip(p, got) for u, v in zip(s, t) for a, b in zip(u, v))
               for p in pictures(want, w, h))


def C27(c):
    b = c.build()
    tool = c.build_tool()
    rng = random.Random(c.seed)
    docs = c.path("docs.ndjson")
    c.drive(b, "pipeline-replay", c.tlc("PipelineGen", consts=c.q({}, {"MaxLines": "5"})), docs, c.q(2, 1))
    # turns by any angle
    any_docs = c.path("any.ndjson")
    c.drive(b, "pipeline-replay", c.tlc("PipelineGen", consts={"Angles": "TRUE", "MaxLines": c.q("4", "5")}, subst={"Lines": "AnyAngle"}), any_docs, c.q(4, 3))

    def judge(job):
        k, line = job
        d = json.loads(line)
        found = d["docs"] + ([tool_picture(c, tool, k, d, rng)] if k % c.q(9, 15) == 0 else [])
        for g in found:
            why = None
            if g["v"] != d["want"]["v"]:
                why = g["v"]
            elif g["v"] == "ok":
                doc = svgdoc.read(g["svg"])
                segs = segments(doc)
                places = d["want"]["places"]
                good = drawn_exactly(doc, d["want"], d["w"], d["h"]) if places is None else segs == [] if not places else any(
                    len(p) == len(segs) and all(abs(a - b) <= 5 for s, t in zip(p, segs) for u, v in zip(s, t) for a, b in zip(u, v)) for p in places)
                if not (doc["wellformed"] and doc["finite"] and (doc["w"], doc["h"]) == (d["w"], d["h"]) and good):
                    why = {"width": doc["w"], "height": doc["h"], "lines in thousandths of pixels": segs, "note": doc["why"]}
            if why is not None and len(c.violations) < 20:
                c.violation({"case": {"text": d["text"], "width": d["w"], "height": d["h"], "way": g["ways"]}, "expected": d["want"], "got": why})
        c.replayed += len(found) - len(d["docs"])

    for p in (docs, any_docs):
        with open(p) as f:
            clirun.each(judge, enumerate(f))
    rec, tr = c.path("recorded.ndjson"), c.path("pipeline.ndjson")
    c.drive(b, "pipeline-record", rec, c.q(300, 4000), record=True)
    with open(tr, "w") as f:
        for k, l in enumerate(open(rec)):
            d = json.loads(l)
            for g in d["docs"] + ([tool_picture(c, tool, k, d, rng)] if k % 2 else []):
                doc = svgdoc.read(g["svg"]) if "svg" in g else None
                f.write(json.dumps(dict(lines=d["lines"], w=d["w"], h=d["h"], v=g["v"], text=d["text"], ways=g["ways"],
                        doc=dict(wellformed=doc["wellformed"], finite=doc["finite"], w=doc["w"], h=doc["h"], segs=segments(doc)) if doc else {})) + "\n")

    def corrupt(r):
        if r["v"] != "ok" or not r["doc"]["segs"]:
            return None
        r["doc"]["segs"][-1][1][0] += 40
        return r
    c.validate("PipelineTrace", tr, corrupt=corrupt)
    return c.finish(rule="every description within the bounds, through six ways of using the library and (a sample) the lsystem tool, the document read with an independent XML parser; recorded longer descriptions; non-trivial: pictures of two or more lines")


def tlc_records(path):
    for l in open(path, errors="replace"):
        if l.startswith('"@@'):
            yield json.loads(json.loads(l)[2:])


def C22(c):
    b = c.build()
    tool = c.build_tool()
    # what the library makes of each good input at each size
    base = c.path("reference")
    clirun.make_dir(base)
    good = ["plain", "tree", "erased", "zero", "crlf", "bytesname", "big", "many", "deep", "late", "last"]
    keys = [(k, s) for k in good for s in clirun.DIMS]
    lines = b""
    for k, s in keys:
        p = os.path.join(base, k + ".txt")
        open(p, "wb").write(clirun.TEXTS[k])
        lines += ("%s\t%d\t%d\n" % (p, *clirun.DIMS[s])).encode()
    r = subprocess.run([b, "svg-reference"], input=lines, stdout=subprocess.PIPE, timeout=300, cwd=base)
    refs = [json.loads(l) for l in r.stdout.decode().splitlines()]
    if len(refs) != len(keys):
        raise ToolError("the reference drawings could not be made")
    text = {("%s/%s" % k): v.get("svg") for k, v in zip(keys, refs)}

    def name_of(content, preferred):
        if content == clirun.OLD:
            return "old"
        for n in preferred + sorted(text):
            if text.get(n) is not None and text[n].encode() == content:
                return n
        return "something else: %r" % content[:120]

    def one(job):
        n, case = job
        if len(c.violations) >= 20:
            return
        d = c.path("run-%d" % n)
        clirun.make_dir(d)
        run = case["run"]
        if case["before"] == "old":
            for f in FILES:
                open(os.path.join(d.encode(), clirun.BYTES if f == "bytes.svg" else clirun.LONG + b"svg" if f == "long.svg" else f.encode()), "wb").write(clirun.OLD)
        before = clirun.listing(d)
        kind, err, what = clirun.invoke(tool, run, d)
        after = clirun.listing(d)
        shutil.rmtree(d)
        drawing = run["input"] + "/" + run["size"]
        want = {f: "old" for f in before}
        if case["success"]:
            want[case["target"]] = drawing
        got = {f: name_of(t, [drawing]) for f, t in after.items()}
        bad = []
        if run["output"] == "full" and kind == "success" and got.pop("full.svg", "") == drawing:
            # a tool that puts a new file in the place of the old one is not stopped by what that was
            case = dict(case, success=True)
        if kind != ("success" if case["success"] else "failure"):
            bad.append(what)
        if kind == "failure" and not err and run["terminal"] != "none":
            bad.append("nothing on standard error")
        if got != want:
            bad.append({"files": got, "expected files": want})
        if bad:
            c.violation({"case": {"command": [a if isinstance(a, str) else a.decode("utf-8", "backslashreplace") for a in clirun.argv("lsystem", run)],
                         "input": repr(clirun.TEXTS.get(run["input"])), "old files": case["before"]},
                         "expected": "success" if case["success"] else "failure, files as they were", "got": bad})
        c.replayed += 1
        c.nontrivial += 1 if case["success"] else 0
        if n % 701 == 3:
            c.sample(case)

    FILES = ["pic.svg", "out.svg", "pic.tar.svg", "sub.d/pic.svg", "svg.svg", "bytes.svg", "pic.SVG", ".svg.svg", "long.svg"]
    gens = [({}, {}), ({"RunSizes": "Sizes", "RunOutputs": "SomeOutputs"}, {}), ({"RunTerminals": "Poor", "RunOutputs": "TwoOutputs"}, {})]
    if c.thorough:
        gens = [({"RunSizes": "Sizes"}, {}), ({"RunTerminals": "Poor"}, {})]
    for subst, consts in gens:
        out = c.tlc("CliGen", subst=subst, consts=consts)
        clirun.each(one, list(enumerate(tlc_records(out))))
    # histories of runs in one directory
    rng = random.Random(c.seed)
    hist = []
    for n in range(c.q(40, 600)):
        runs = [dict(input=rng.choice(sorted(clirun.TEXTS) + good + ["missing", "directory"]),
                     output=rng.choice(["pic.svg", "pic.png", "pic", "pic.", "pic.svgz", "default", "pic.tar.gz", "sub.d/pic", "svg", "folder", "none/pic.svg", "bytes", "pic.SVG", ".svg", "up", "nothing", "long", "toolong"]),
                     size=rng.choice(list(clirun.DIMS) * 2 + ["w=x", "h=-1"]), verbose=rng.random() < .5, terminal=rng.choice(["fine"] * 4 + ["noout", "none"])) for _ in range(rng.randrange(2, 12))]
        hist.append((n, runs))

    def history(job):
        n, runs = job
        d = c.path("hist-%d" % n)
        clirun.make_dir(d)
        names, h = {}, []
        for run in runs:
            kind, err, what = clirun.invoke(tool, run, d)
            files = clirun.listing(d)
            drawing = run["input"] + "/" + run["size"]
            names = {f: name_of(t, [drawing, names.get(f, "")] if kind == "success" else [names.get(f, ""), drawing]) for f, t in files.items()}
            h.append(dict(run=run, exit=kind, stderr=err, what=what, files=dict(names, none="absent"), others=sorted(f for f in files if f not in FILES)))
        shutil.rmtree(d)
        return dict(h=h)
    tr = c.path("cli.ndjson")
    with open(tr, "w") as f:
        for r in clirun.each(history, hist):
            f.write(json.dumps(r) + "\n")

    def corrupt(r):
        for e in r["h"]:
            if e["exit"] == "failure" and e["run"]["terminal"] == "fine":
                e["stderr"] = False
                return r
        return None
    c.validate("CliTrace", tr, corrupt=corrupt)
    return c.finish(rule="every run over inputs (good and faulty at each stage), outputs, sizes and verbosity, in a directory with and without old files; recorded histories of runs in one directory; non-trivial: runs that succeed",
                    assumptions=["the library's drawing of the plant file is the reference for the contents (C19 to C21 judge it)"])


def one_call_wrong(pick):
    """Makes the result of one call impossible; pick(call, calls) -> new call or None."""
    def corrupt(r):
        for k, o in enumerate(r["ops"]):
            n = pick(o, r["ops"][:k])
            if n is not None:
                r["ops"][k] = n
                return r
        return None
    return corrupt


def design(c, module, quick, thorough):
    c.tlc(module, consts=c.q(quick, thorough), timeout=c.q(300, 6000))


def C01(c):
    design(c, "RegistryMC", {"Threads": "{1, 2}"}, {})
    b, controlled = conc.binary(c)
    ps = conc.programs
    two, three = ps(c, "codes", 2, 2, 4), ps(c, "codes", 3, 2, 6, sample=c.q(150, 3000))
    longer = ps(c, "codes", 2, 3, 6, sample=c.q(100, 2000), salt=1)
    plan = [("explore", two, c.q(3, 5), c.q(3000, 40000)), ("explore", three, c.q(2, 3), c.q(600, 10000)), ("explore", longer, c.q(2, 4), c.q(600, 20000)),
            ("random", three, c.q(60, 600), 0)]
    if controlled:
        plan.append(("fresh", two[:: c.q(6, 1)], c.q(1, 2), c.q(60, 1500)))
    tr, n = conc.run(c, b, controlled, plan)

    def pick(o, before):
        if o["o"] == "get" and any(x["n"] == o["n"] for x in before):
            return dict(o, r=9)
    conc.judge(c, "RegistryTrace", tr, n, one_call_wrong(pick), consts={"Judge": '"codes"'})
    registry_long(c, "codes")
    return c.finish(rule="every program of requests by 2 threads of up to 2 calls (and samples of longer ones) under every schedule within the preemption bound, in used and in fresh processes; non-trivial: executions in which the threads take turns")


def C02(c):
    design(c, "RegistryMC", {"Threads": "{1, 2}"}, {})
    b, controlled = conc.binary(c)
    ps = conc.programs
    two, three = ps(c, "names", 2, 2, 4), ps(c, "names", 3, 2, 6, sample=c.q(150, 3000))
    longer = ps(c, "names", 2, 3, 6, sample=c.q(100, 2000), salt=1)
    plan = [("explore", two, c.q(2, 4), c.q(1500, 40000)), ("explore", three, c.q(2, 3), c.q(500, 10000)), ("explore", longer, c.q(2, 4), c.q(500, 20000)),
            ("random", three, c.q(60, 600), 0)]
    if controlled:
        plan.append(("fresh", two[:: c.q(25, 1)], c.q(1, 2), c.q(60, 1500)))
    tr, n = conc.run(c, b, controlled, plan)

    def pick(o, before):
        if o["o"] == "name" and o["r"] not in ("none",):
            return dict(o, r="wrong")
    conc.judge(c, "RegistryTrace", tr, n, one_call_wrong(pick), consts={"Judge": '"names"'})
    registry_long(c, "names")
    return c.finish(rule="every program of requests and look-ups by 2 threads of up to 2 calls (and samples of longer ones) under every schedule within the preemption bound, in used and in fresh processes; look-ups of codes given by either thread and of codes never given; non-trivial: executions in which the threads take turns")


def registry_long(c, judge):
    """Long sequential histories with thousands of names."""
    b = c.build()
    tr = c.path("registry.ndjson")
    c.drive(b, "registry-record", tr, c.q(6, 60), c.q(400, 2000), record=True)

    def corrupt(r):
        for k, o in enumerate(r["ops"]):
            if judge == "codes" and o["o"] == "get" and o["r"] and any(x["o"] == "get" and x["n"] == o["n"] for x in r["ops"][:k]):
                r["ops"][k]["r"] = 99999
                return r
            if judge == "names" and o["o"] == "name" and o["r"] != "none":
                r["ops"][k]["r"] = "none"
                return r
        return None
    c.validate("RegistryTrace", tr, consts={"Judge": '"%s"' % judge}, corrupt=corrupt, workers=8)


def C12(c):
    design(c, "SystemMC", {}, {"MaxOps": "3"})
    b, controlled = conc.binary(c)
    ps = conc.programs
    one, two, three = ps(c, "system", 2, 1, 2), ps(c, "system", 2, 2, 4, sample=c.q(500, 6000)), ps(c, "system", 3, 1, 3, sample=c.q(150, 2000))
    plan = [("explore", one, c.q(4, 6), c.q(2000, 60000)), ("explore", two, 2, c.q(250, 6000)), ("explore", three, 2, c.q(250, 6000)),
            ("random", two, c.q(30, 300), 0), ("explore", ps(c, "merge", 2, 2, c.q(3, 4)), c.q(3, 5), c.q(1500, 40000))]
    tr, n = conc.run(c, b, controlled, plan)

    def pick(o, before):
        if o["o"] == "plen":
            return dict(o, r=o["r"] + 5)
    conc.judge(c, "SystemTrace", tr, n, one_call_wrong(pick))
    return c.finish(rule="every program of 2 threads with one call each on one system (and samples of longer ones and of 3 threads), on an empty system and on one with a production, under every schedule within the preemption bound; every history ends with the counts, the look-ups and two derivations; non-trivial: executions in which the threads take turns")


def C15(c):
    design(c, "FamilyMC", {}, {"Threads": "{1, 2, 3}"})
    d = c.build()
    c.drive(d, "family-registry", c.tlc("FamilyRegGen", consts={"MaxOps": c.q("4", "5")}), "once")
    tr = c.path("family-registry.ndjson")
    c.drive(d, "family-registry-record", tr, c.q(6, 60), c.q(1500, 4000), record=True)

    def corrupt(r):
        for k, o in enumerate(r["ops"]):
            if o["o"] in ("reg", "getf", "of") and o["r"] > 0 and k > 20:
                o["r"] = o["r"] - 1 if o["r"] > 1 else 0
                return r
    c.validate("FamilyTrace", tr, cfg="FamilyTraceLong.cfg", corrupt=corrupt, workers=8)
    b, controlled = conc.binary(c)
    ps = conc.programs
    two, three = ps(c, "family", 2, 2, 4), ps(c, "family", 3, 2, 5, sample=c.q(200, 3000))
    plan = [("explore", two, c.q(2, 4), c.q(800, 20000)), ("explore", three, 2, c.q(400, 8000)), ("random", three, c.q(60, 600), 0)]
    if controlled:
        plan.append(("fresh", ps(c, "family", 2, 1, 2), c.q(2, 4), c.q(60, 2000)))
    tr, n = conc.run(c, b, controlled, plan)

    def pick(o, before):
        if o["o"] in ("reg", "init") and o["r"]:
            return dict(o, r=77)
    conc.judge(c, "FamilyTrace", tr, n, one_call_wrong(pick))
    return c.finish(rule="every history of calls on the registry up to the bound from one thread; every program of 2 threads of up to 2 calls (and samples with 3 threads) under every schedule within the preemption bound, in used and in fresh processes; non-trivial: executions in which the threads take turns")


def C13(c):
    design(c, "RegistryMC", {"Threads": "{1, 2}"}, {})
    design(c, "SystemMC", {}, {"MaxOps": "3"})
    design(c, "FamilyMC", {}, {"Threads": "{1, 2, 3}"})
    b, controlled = conc.binary(c)
    ps = conc.programs
    plan = []
    plan.append(("explore", ps(c, "mixed", 2, 1, 2), c.q(4, 8), c.q(2000, 60000)))
    plan.append(("explore", ps(c, "mixed", 3, 1, 3, sample=c.q(500, 5000)), c.q(2, 4), c.q(250, 10000)))
    plan.append(("explore", ps(c, "mixed", 2, 2, 4, sample=c.q(1500, 20000)), 2, c.q(150, 5000)))
    plan.append(("explore", ps(c, "names", 2, 2, 4), c.q(2, 4), c.q(300, 10000)))
    plan.append(("explore", ps(c, "family", 2, 2, 4), c.q(2, 4), c.q(300, 10000)))
    plan.append(("random", ps(c, "mixed", 3, 2, 6, sample=c.q(800, 10000), walks=c.q(4000, 50000)), c.q(40, 200), 0))
    if controlled:
        plan.append(("fresh", ps(c, "mixed", 2, 1, 2), c.q(1, 3), c.q(16, 1000)))
    conc.run(c, b, controlled, plan, hang_is_violation=True)
    return c.finish(rule="every program of 2 threads with one call each out of seventeen (two systems, both registries, initialisers that use the symbols, printing), samples of longer ones and of 3 threads, under every schedule within the preemption bound; non-trivial: executions in which the threads take turns")


def C10(c):
    b, controlled = conc.binary(c)
    big = {"Unit": "1000", "Values": "{0, 1, 2, 11, 101, 301, 334, 335, 501, 701, 1000, 1001}", "MaxLen": c.q("3", "4")}
    tenths = {"Unit": "10", "Values": "{0, 1, 2, 3, 4, 5, 6, 8, 10, 11}", "MaxLen": c.q("4", "5")}
    gens = [({}, 1), ({"Unit": "8", "Values": "{0, 1, 2, 3, 4, 6, 8, 9}", "MaxLen": c.q("4", "5")}, 1), (big, 1), (tenths, c.q(4, 1)),
            ({"Unit": "10", "Values": "{2, 3, 4, 6}", "MaxLen": "10", "OnlySum": "10"}, 3)]
    for unit in (20, 25, 40, 50, 100):     # 1 as a sum of many equal chances
        gens.append(({"Unit": str(unit), "Values": "{2}", "MaxLen": str(unit), "OnlySum": str(unit)}, 1))
    for unit, vals, n in (("10000", "{5001, 5002}", "2"), ("10000", "{2501, 2502, 0}", "4"), ("1000000", "{500001, 500002}", "2"), ("1000000", "{0, 250001, 250002, 500001}", "4")):
        gens.append(({"Unit": unit, "Values": vals, "MaxLen": n, "OnlySum": unit[:-1] + "1"}, 1))    # hardly more than 1
    for n in (256, 257, 300, 513):         # hundreds of bodies
        gens.append(({"Unit": "2", "Values": "{0, 1, 2}", "MaxLen": str(n)}, c.q(5, 1)))
    trace = c.path("chance.ndjson")
    open(trace, "w").close()
    files = []
    for k, (consts, every) in enumerate(gens):
        out = c.tlc("StochasticGen", consts=consts, subst={"Starts": "Many"} if int(consts.get("MaxLen", 0)) > 200 else None)
        ls = sorted(l for l in open(out, errors="replace") if l.startswith('"@@'))
        f = c.path("lists-%d" % k)
        open(f, "w").write("".join(ls[(c.seed + k) % every::every]))
        files.append(f)
    allf = c.path("lists")
    with open(allf, "w") as g:
        for f in files:
            g.write(open(f).read())
    conc.sharded(c, b, "chance-counts", [allf], c.q(60000, 400000), trace)
    conc.sharded(c, b, "chance-pairs", [files[0]], c.q(20000, 50000), trace)

    def corrupt(r):
        if r["o"] != "counts" or len(r["w"]) < 2 or r["errors"]:
            return None
        k = max(range(len(r["w"])), key=lambda k: r["counts"][k])
        d = r["n"] // 50
        if r["counts"][k] < d:
            return None
        r["counts"][k] -= d
        r["counts"][k - 1] += d
        return r
    c.validate("StochasticTrace", trace, corrupt=corrupt, workers=8)
    return c.finish(rule="every list of chances over the values up to the bound (quarters, eighths, tenths, thousandths, decimal sums of 1, hundreds of bodies), chosen from tens of thousands of times through four ways of making the production, at the extreme draws where chances are exact, and in pairs that must be independent (neighbours, two apart, two productions, repeated derivations, two threads); tolerance 6.5 standard deviations; non-trivial: several bodies")


def C28(c):
    b = c.build()
    c.drive(b, "seqs-replay", c.tlc("SeqsGen", consts={"MaxOps": c.q("4", "5")}))
    tr = c.path("seqs.ndjson")
    c.drive(b, "seqs-record", tr, c.q(200, 3000), record=True)

    def corrupt(r):
        for e in r["h"]:
            if e["o"] == "push":
                e["a"] = e["a"][:-1]
                return r
        return None
    c.validate("SeqsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every program of operations on two variables up to the bound (one test per transition), for production strings and for paths, with named symbols, symbols without a name and several sets of points; non-trivial: two or more operations")


def C29(c):
    b = c.build()
    c.drive(b, "parts-replay", c.tlc("PartsGen", consts={"MaxOps": c.q("3", "4")}))
    c.drive(b, "parts-replay", c.tlc("PartsGen", consts={"MaxOps": c.q("2", "3")}, subst={"Heads": "ManyHeads", "Chances": "ManyChances"}))
    tr = c.path("parts.ndjson")
    c.drive(b, "parts-record", tr, c.q(300, 4000), record=True)

    def corrupt(r):
        for e in r["h"]:
            if e["o"] == "add":
                e["p"]["bs"] = e["p"]["bs"][:-1]
                return r
        return None
    c.validate("PartsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every program of operations on two productions up to the bound (one test per transition), with several sets of names; every class of chances; non-trivial: two or more operations")


def C30(c):
    b = c.build()
    gens = [c.tlc("ElementsGen", consts={"MaxOps": c.q("3", "4")}),
            c.tlc("ElementsGen", consts={"MaxOps": "2", "MaxText": c.q("2", "3"), "Chars": '{"x", "amp", "quote", "lt", "gt", "apos", "tab", "nl", "sp", "semi"}', "Numbers": '{"zero", "third", "huge", "tiny", "neg"}'})]
    for k, g in enumerate(gens):
        docs = c.path("elements-%d" % k)
        c.drive(b, "elements-documents", g, docs)
        for l in open(docs):
            d = json.loads(l)
            e, a = elements.read(d["text"], d["means"])
            if d["e"] != d["want"]["e"] or e != d["want"]["e"] or a != d["want"]["a"]:
                c.violation({"case": d["program"], "expected": d["want"], "got": {"e": e, "a": a}, "text": d["text"][:2000], "means": d["means"]})
    raw, tr = c.path("elements.raw"), c.path("elements.ndjson")
    c.drive(b, "elements-record", raw, c.q(300, 4000), record=True)
    with open(tr, "w") as f:
        for l in open(raw):
            d = json.loads(l)
            for ev in d["h"]:
                e, ev["a"] = elements.read(ev["text"], d["means"])
                if e != ev["e"]:
                    ev["e"] = e
                else:
                    del ev["text"]
            f.write(json.dumps({"h": d["h"]}) + "\n")

    def corrupt(r):
        for ev in r["h"]:
            if ev["o"] == "stroke" and ev["x"] and ev["x"][0]:
                for at in ev["a"]:
                    if at["n"] == "stroke":
                        at["v"] = at["v"][:-1]
                        return r
        return None
    c.validate("ElementsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every program up to the bound that makes an element and changes its decorations (one test per transition), texts over all special characters, numbers from the smallest to the largest; the text of the element read with an independent XML parser; non-trivial: two or more operations")


def C31(c):
    b = c.build()
    tool = c.build_tool()
    says = json.loads(subprocess.run([b, "family-descriptions"], stdout=subprocess.PIPE, timeout=60).stdout)
    says = {k: {n: d.strip() for n, d in v} for k, v in says.items()}
    plants = {n: c.path(n) for n in clirun.PLANTS}
    for n, p in plants.items():
        open(p, "wb").write(clirun.PLANTS[n])
    drawn = {}

    def references(keys):
        """The library's picture of each (plant, width, height)."""
        keys = [k for k in keys if k not in drawn]
        lines = b"".join(("%s\t%d\t%d\n" % (plants[p], w, h)).encode() for p, w, h in keys)
        r = subprocess.run([b, "svg-reference"], input=lines, stdout=subprocess.PIPE, timeout=300)
        for k, l in zip(keys, r.stdout.decode().splitlines()):
            drawn[k] = json.loads(l).get("svg")

    def run(job):
        """-> what is seen of one run"""
        n, line, terminal = job
        d = c.path("args-%d" % n)
        os.makedirs(d)
        for name, text in clirun.PLANTS.items():
            open(os.path.join(d, name), "wb").write(text)
        args = clirun.words(line)
        kind, out, err, what = clirun.call([tool] + args, d, terminal)
        files, touched = {}, []
        for f in sorted(os.listdir(d)):
            if f in clirun.PLANTS:
                if open(os.path.join(d, f), "rb").read() != clirun.PLANTS[f]:
                    touched.append(f)
            elif os.path.isfile(os.path.join(d, f)):
                files[f] = open(os.path.join(d, f), "rb").read().decode("utf-8", "replace")
            else:
                touched.append(f)
        if len(os.listdir(d)) - len(files) - len(touched) < len(clirun.PLANTS) and not touched:
            touched.append("a plant file is gone")
        shutil.rmtree(d)
        rows, strange = clirun.shown(out) if [it["v"] for it in line if it["t"] == "word"] == ["describe"] else ({"terminals": [], "productions": []}, [])
        for k in rows:
            strange += ["%s: %s" % r for r in rows[k] if says[k].get(r[0]) != r[1]]
        return dict(line=line, args=args, terminal=terminal, exit=kind, stdout=bool(out.strip()), stderr=bool(err.strip()), what=what,
                    files=files, touched=touched, strange=strange, **{k: [r[0] for r in v] for k, v in rows.items()})

    def pictures(seen):
        """Names the pictures that the runs saved."""
        sizes = {}
        for r in seen:
            for f, t in r["files"].items():
                m = re.match(r'<svg[^>]*? width="(\d{1,6})" height="(\d{1,6})"', t)
                sizes[id(r), f] = (int(m.group(1)), int(m.group(2))) if m else None
        references(sorted({(p, *s) for s in sizes.values() if s for p in plants}))
        for r in seen:
            r["pictures"] = []
            for f, t in sorted(r["files"].items()):
                s = sizes[id(r), f]
                plant = [p for p in plants if s and drawn.get((p, *s)) == t] or ["something else: " + t[:80]]
                r["pictures"].append(dict(file=f, plant=plant[0], width=s[0] if s else 0, height=s[1] if s else 0))
            r["pictures"] += [dict(file=f, plant="not the tool's to touch", width=0, height=0) for f in r["touched"]]
            del r["files"], r["touched"]
        return seen

    gens = [c.tlc("ArgsGen", consts={"MaxItems": c.q("4", "5")}), c.tlc("ArgsGen", consts={"MaxItems": c.q("3", "4"), "Spellings": '"all"'})]
    jobs = []
    for g in gens:
        for rec in tlc_records(g):
            jobs.append((len(jobs), rec["line"], "fine" if len(jobs) % 7 else "noout" if len(jobs) % 14 else "none", rec["does"]))
    seen = pictures(clirun.each(run, [j[:3] for j in jobs]))
    alphabet = {k: sorted(v) for k, v in (("terminals", ["[", "]", "+", "-"]), ("productions", ["Forward", "Move", "X"]))}
    for (n, line, terminal, does), r in zip(jobs, seen):
        want_pics = [does["picture"]] if does["picture"]["file"] else []
        bad = []
        if r["exit"] != does["exit"] and not (terminal != "fine" and does["shows"] in ("help", "version", "alphabet") and r["exit"] == "failure"):
            bad.append(r["what"])
        if does["exit"] == "failure" and terminal != "none" and not r["stderr"]:
            bad.append("nothing on standard error")
        if r["pictures"] != want_pics:
            bad.append({"pictures": r["pictures"], "expected": want_pics})
        if terminal == "fine":
            if does["shows"] in ("help", "version", "alphabet") and not r["stdout"]:
                bad.append("nothing on standard output")
            if does["shows"] == "alphabet" and (r["strange"] or any(sorted(r[k]) != alphabet[k] for k in alphabet)):
                bad.append({k: r[k] for k in ("terminals", "productions", "strange")})
        if bad:
            c.violation({"case": {"command": ["lsystem"] + r["args"], "terminal": terminal}, "expected": does, "got": bad})
        c.replayed += 1
        c.nontrivial += 1 if want_pics else 0
        if n % 1501 == 3:
            c.sample(dict(command=r["args"], does=does))
    # longer lines, with any names and sizes
    rng = random.Random(c.seed * 31 + 7)

    def option(o):
        if o == "output":
            ext = rng.choice([".svg", "", ".png", ".SVG", ".svgx"])
            stem = rng.choice("pqrz") + "".join(rng.choice("ab= é_7" + ("." if ext else "")) for _ in range(rng.randrange(9)))
            return dict(t="opt", o=o, how=rng.choice(["-o V", "-oV", "-o=V", "--output V", "--output=V", "-voV"]), v=dict(stem=stem.rstrip() + "k", ext=ext))
        n = rng.choice([0, 1, 9, 50, 333, 1024, 40000])
        bad = rng.random() < .06
        text = rng.choice(["x", "1.5", "", "1e3", "5px"]) if bad else "0" * rng.randrange(3) + str(n)
        return dict(t="opt", o=o, how=rng.choice(["--O V", "--O=V"]), v=dict(text=text, n=-1 if bad else n))

    def line():
        word = lambda w: dict(t="word", v=w)
        verbose = dict(t="flag", o="verbose", how=rng.choice(["-v", "--verbose"]))
        kind = rng.random()
        if kind < .12:
            return ([verbose] if rng.random() < .4 else []) + [word("describe")] + ([rng.choice([word("a.plant"), option("output"), dict(t="wrong", v="--all")])] if rng.random() < .4 else [])
        if kind < .2:
            end = dict(t="flag", o="help", how=rng.choice(["-h", "--help"])) if rng.random() < .5 else dict(t="flag", o="version", how=rng.choice(["-V", "--version"]))
            return ([word(rng.choice(["interpret", "describe"]))] if rng.random() < .7 else []) + [end]
        items = [option(o) for o in ("output", "width", "height") if rng.random() < .7]
        files = [word(rng.choice(["a.plant", "b.plant", "a.plant", "b.plant", "c.plant", "describe"])) for _ in range(rng.choice([1] * 14 + [0, 2]))]
        loud = any(it["how"] == "-voV" for it in items)
        top = []
        if not loud and rng.random() < .4:
            if rng.random() < .3:
                top = [verbose]
            else:
                items.append(verbose)
        if rng.random() < .06:
            items.append(dict(t="wrong", v=rng.choice(["--outputs=x", "-q", "--depth", "--with", "---"])))
        if rng.random() < .2:
            rng.shuffle(items)
            items += [dict(t="rest")] + files
        else:
            items += files
            rng.shuffle(items)
        if rng.random() < .05:
            if any(it["t"] == "rest" for it in items):
                items.append(word("e.plant"))
            else:
                items.append(dict(t="lacking", v=rng.choice(["-o", "--width", "--height"])))
                items += [option("width")] if rng.random() < .5 else []
        return top + [word("interpret")] + items

    seen = pictures(clirun.each(run, [(k + 10 ** 6, line(), "fine") for k in range(c.q(1500, 20000))]))
    tr = c.path("args.ndjson")
    with open(tr, "w") as f:
        for r in seen:
            f.write(json.dumps(r) + "\n")

    def corrupt(r):
        if r["pictures"]:
            r["pictures"][0]["width"] += 1
            return r
        return None
    c.validate("ArgsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every command line up to the bound (each option in every spelling), and recorded longer ones, run on the real tool; non-trivial: lines that save a picture",
                    assumptions=["the library's drawing of the plant file is the reference for the contents (C19 to C21 judge it)", "repeated options are left to the argument parser"])


def C32(c):
    b = c.build()
    c.drive(b, "settings-replay", c.tlc("SettingsGen", consts={"MaxOps": c.q("3", "4")}))
    tr = c.path("settings.ndjson")
    c.drive(b, "settings-record", tr, c.q(800, 4000), record=True)

    def corrupt(r):
        for ev in r["h"]:
            if ev["o"] == "wrap":
                ev["it"]["canvas"] = ev["it"]["canvas"][::-1] if len(set(ev["it"]["canvas"])) > 1 else ["ten", "ten"]
                return r
        return None
    c.validate("SettingsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every program up to the bound that makes, wraps and copies interpretations and run settings (one test per transition), with several sets of numbers; everything that can be asked of them asked at the end, and in the recorded ones after every step; non-trivial: two or more operations")


def C33(c):
    b = c.build()
    c.drive(b, "errors-replay", c.tlc("ErrorsGen", consts={"MaxOps": c.q("3", "4")}))
    tr = c.path("errors.ndjson")
    c.drive(b, "errors-record", tr, c.q(800, 4000), record=True)

    def corrupt(r):
        for ev in r["h"]:
            if ev["err"]["source"]:
                ev["err"]["source"] = []
                return r
        return None
    c.validate("ErrorsTrace", tr, corrupt=corrupt)
    return c.finish(rule="every program up to the bound that makes errors from messages and from other errors, gets them from failing calls, and copies them (one test per transition), with several sets of messages and faults; non-trivial: two or more operations")


def C34(c):
    b = c.build()
    c.drive(b, "tokens-replay", c.tlc("TokensGen", consts={"MaxLen": c.q("4", "5")}), c.q(5, 11))
    tr = c.path("tokens.ndjson")
    c.drive(b, "tokens-record", tr, c.q(1500, 20000), record=True)

    def corrupt(r):
        for t in r["tokens"]:
            if t["seen"]["kind"] == "Symbol":
                t["seen"]["kind"] = "Arrow"
                return r
        return None
    c.validate("TokensTrace", tr, corrupt=corrupt)
    return c.finish(rule="every text up to the bound over the characters that matter, in several readings, as a token; the tokens that reading longer texts gives; non-trivial: two or more characters or tokens")
