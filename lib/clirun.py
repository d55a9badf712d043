"""Carries out runs of the lsystem tool in scratch directories and observes the files."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

TEXTS = {
    "plain": b"n = 3\ndelta = 90\ninitial: X\nX -> Forward + X\n",
    "tree": b"# a tree\nn = 4\ndelta = 22.5\n\ninitial: X\nForward -> Forward Forward\nX -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X\n",
    "erased": b"n = 1\ninitial: X\nX -> \n",
    "zero": b"n = 0\ninitial: Forward + Forward Forward\nForward -> Forward Forward\n",
    "crlf": b"n = 2\r\ndelta = 60\r\ninitial: Forward\r\nForward -> Forward + Forward - - Forward\r\n",
    "bytesname": b"n = 5\ndelta = 30\ninitial: X\nX -> Forward - X\n",
    "big": b"n = 6\ndelta = 22.5\ninitial: X\nForward -> Forward Forward\nX -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X\n",
    "many": b"n = 3000\ndelta = 1\ninitial: X\nX -> + Forward X\n",
    "deep": b"n = 700\ndelta = 0.5\ninitial: X\nX -> [ Forward + X ] Forward\n",
    "late": b"X -> Forward X # n = 9\n\n\n# initial: Y\ninitial: X + X\n delta=-30.5 \n\tn=7",
    "last": b"initial: Y\nn = 1\nn = 4\ndelta = 1\nX -> X Forward\ninitial: X\ndelta = 120\nForward -> Forward - Move\nn = 3\n",
    "hugenumber": b"n = 18446744073709551616\ninitial: X\nX -> Forward X\n",
    "notutf8": b"n = 3\ninitial: X\n# \xff\xfe\nX -> Forward X\n",
    "empty": b"",
    "comments": b"# nothing\n\n   \n",
    "noprods": b"n = 3\ninitial: X\n",
    "noaxiom": b"n = 3\nX -> Forward X\n",
    "badsetting": b"n = 3\nangle = 4\ninitial: X\nX -> Forward X\n",
    "badline": b"n = 3\ninitial: X\nX -> Forward X\nForward X\n",
    "badnumber": b"n = three\ninitial: X\nX -> Forward X\n",
    "badchance": b"initial: X\nX -> 2 Forward X\n",
    "overfull": b"initial: X\nX -> 0.7 Forward X\nX -> 0.7 X\n",
    "unmatched": b"n = 0\ninitial: Forward ] Forward\nX -> Forward X\n",
    "grownunmatched": b"n = 2\ninitial: X\nX -> Forward X ]\n",
}
SIZES = {"": [], "w=300": ["--width", "300"], "h=200": ["--height=200"], "w=640 h=48": ["--height", "48", "--width=640"], "w=70000 h=3": ["--width", "70000", "--height", "3"],
         "w=x": ["--width", "x"], "h=-1": ["--height=-1"], "w=1.5": ["--width", "1.5"]}
DIMS = {"": (500, 500), "w=300": (300, 500), "h=200": (500, 200), "w=640 h=48": (640, 48), "w=70000 h=3": (70000, 3)}
LONG = b"a " + b"long" * 52 + "\u00e9.".encode()     # 213 bytes, and no extension
OLD = b"<svg>what was here before, rather longer than anything that will be written</svg>\n" * 400
BYTES = b"byt\xffs.svg"


def input_path(kind):
    return {"missing": b"in/nothing here.plant", "directory": b"in", "bytesname": b"in/pl\xffnt.plant"}.get(kind, b"in/" + kind.encode() + b".plant")


def output_path(kind):
    return {"folder": b"folder.svg", "bytes": BYTES, "full": b"full.svg", "up": b"..", "nothing": b"", "long": LONG[:-1], "toolong": b"l" * 252}.get(kind, kind.encode())


def make_dir(d):
    os.makedirs(os.path.join(d, "in"))
    os.makedirs(os.path.join(d, "sub.d"))
    os.makedirs(os.path.join(d, "folder.svg"))
    os.symlink("/dev/full", os.path.join(d, "full.svg"))     # every write fails
    for k, t in TEXTS.items():
        with open(os.path.join(d.encode(), input_path(k)), "wb") as f:
            f.write(t)


def listing(d):
    """file -> content, without the inputs"""
    out = {}
    b = d.encode()
    for root, dirs, files in os.walk(b):
        rel = os.path.relpath(root, b)
        if rel == b"in" or rel.startswith(b"in/"):
            continue
        for f in files:
            if f == b"full.svg" and os.path.islink(os.path.join(root, f)):
                continue
            p = f if rel == b"." else os.path.join(rel, f)
            name = "bytes.svg" if p == BYTES else "long.svg" if p == LONG + b"svg" else p.decode("utf-8", "backslashreplace")
            with open(os.path.join(root, f), "rb") as h:
                out[name] = h.read()
    return out


def argv(binary, run):
    a = [binary, "interpret", input_path(run["input"])]
    if run["output"] != "default":
        a += ["-o", output_path(run["output"])]
    a += SIZES[run["size"]]
    if run["verbose"]:
        a.insert(2 if len(run["input"]) % 2 else 1, "--verbose")
    return a


def invoke(binary, run, d, timeout=20):
    """-> (exit, stderr is not empty, what happened)"""
    kind, _, err, what = call(argv(binary, run), d, run.get("terminal", "fine"), timeout)
    return kind, bool(err.strip()), what


def call(args, d, terminal="fine", timeout=20):
    """-> (exit, standard output, standard error, what happened)"""
    with open("/dev/full", "wb") as full:
        try:
            p = subprocess.run(args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE if terminal == "fine" else full,
                               stderr=full if terminal == "none" else subprocess.PIPE, timeout=timeout, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            return "hang", b"", b"", "no exit within %d s" % timeout
    code = p.returncode
    kind = "success" if code == 0 else "crash" if code < 0 or code == 101 else "failure"
    err = p.stderr or b""
    return kind, p.stdout or b"", err, "exit %d, standard error %r" % (code, err[-300:].decode("utf-8", "replace"))


# --- command lines (specs/Args.tla) ---------------------------------------
PLANTS = {"a.plant": TEXTS["plain"], "b.plant": TEXTS["crlf"]}


def words(line):
    """The argument words that a list of items stands for."""
    out = []
    for it in line:
        t = it["t"]
        if t in ("word", "wrong", "lacking"):
            out.append(it["v"])
        elif t == "rest":
            out.append("--")
        elif t == "flag":
            out.append(it["how"])
        else:
            v = it["v"]["text"] if "text" in it["v"] else it["v"]["stem"] + it["v"]["ext"]
            head, sep, tail = it["how"].replace("O", it["o"]).partition(" ")
            out += [head, v] if sep else [head[:-1] + v]
    return out


def shown(text):
    """What describe printed -> (rows under each heading, rest)"""
    text = re.sub("\x1b\\[[0-9;]*m", "", text.decode("utf-8", "replace"))
    part, rows, strange = None, {"terminals": [], "productions": []}, []
    for l in text.splitlines():
        if not l.strip():
            continue
        if l.strip().rstrip(":").lower() in rows and l == l.lstrip():
            part = l.strip().rstrip(":").lower()
        elif part:
            name, _, what = l.strip().partition(" ")
            rows[part].append((name, what.strip()))
        else:
            strange.append(l)
    return rows, strange


def each(f, items):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, items))
