"""Reads SVG documents with an independent XML parser: which path elements they contain
and where on the canvas each point lies."""
import math, re
import xml.etree.ElementTree as ET

NS = "{http://www.w3.org/2000/svg}"
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
TOKEN = re.compile(r"\s*,?\s*([A-Za-z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


def mul(m, n):
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j, a * k + c * l + e, b * k + d * l + f)


def transform(text):
    m = (1, 0, 0, 1, 0, 0)
    for name, args in re.findall(r"([A-Za-z]+)\s*\(([^)]*)\)", text or ""):
        v = [float(x) for x in NUM.findall(args)]
        if name == "translate":
            n = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif name == "scale":
            n = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif name == "matrix":
            n = tuple(v)
        elif name == "rotate":
            t = math.radians(v[0])
            n = (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0, 0)
            if len(v) == 3:
                n = mul(mul((1, 0, 0, 1, v[1], v[2]), n), (1, 0, 0, 1, -v[1], -v[2]))
        else:
            raise ValueError("transform " + name)
        m = mul(m, n)
    return m


def path_data(d):
    """The commands and points of absolute M and L data."""
    cmds, pts, pos, cmd, nums = [], [], 0, None, []
    d = d.strip()
    while pos < len(d):
        t = TOKEN.match(d, pos)
        if not t:
            raise ValueError("path data %r" % d[pos:pos + 30])
        pos, tok = t.end(), t.group(1)
        if tok.isalpha():
            if nums:
                raise ValueError("an odd number of coordinates")
            cmd = tok
        else:
            nums.append(float(tok))
            if len(nums) == 2:
                cmds.append(cmd)
                pts.append(tuple(nums))
                nums = []
                if cmd == "M":
                    cmd = "implicit L"
        while pos < len(d) and d[pos].isspace():
            pos += 1
    if nums:
        raise ValueError("an odd number of coordinates")
    return cmds, pts


def read(text):
    """-> dict(wellformed, why, w, h, finite, cmds, pts, img)"""
    out = dict(wellformed=False, finite=True, w=-1, h=-1, cmds=[], pts=[], img=[], why="")
    try:
        root = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as e:
        out["why"] = "not well-formed: %s" % e
        return out
    if root.tag != NS + "svg":
        out["why"] = "the root is " + root.tag
        return out
    for el in root.iter():
        for v in el.attrib.values():
            if re.search(r"(?i)(?<![a-z])(nan|inf|infinity)(?![a-z])", v):
                out["finite"] = False
                out["why"] = "a number that is not finite: " + v[:80]
    def size(a):
        v = root.get(a, "")
        m = re.fullmatch(r"\s*(\d+(?:\.0*)?)\s*(px)?\s*", v)
        return int(float(m.group(1))) if m else -1
    out["w"], out["h"] = size("width"), size("height")
    m = (1, 0, 0, 1, 0, 0)
    if root.get("viewBox"):
        x, y, w, h = (float(v) for v in NUM.findall(root.get("viewBox")))
        if root.get("preserveAspectRatio", "").startswith("none"):
            sx, sy = out["w"] / w, out["h"] / h
        else:
            sx = sy = min(out["w"] / w, out["h"] / h)
        m = mul((1, 0, 0, 1, out["w"] / 2, out["h"] / 2), mul((sx, 0, 0, sy, 0, 0), (1, 0, 0, 1, -x - w / 2, -y - h / 2)))
    out["wellformed"] = True

    def walk(el, m):
        if el is not root:
            m = mul(m, transform(el.get("transform")))
        if el.tag == NS + "path":
            cmds, pts = path_data(el.get("d", ""))
            out["cmds"].append(cmds)
            out["pts"].append(pts)
            out["img"].append([(m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]) for x, y in pts])
        for c in el:
            walk(c, m)
    try:
        walk(root, m)
    except (ValueError, IndexError) as e:
        if out["finite"]:
            out["wellformed"] = False
        out["why"] = out["why"] or "unreadable: %s" % e
    return out


def near(a, b, tol):
    return abs(a - b) <= tol


def lattice(doc, sx, tx, sy, ty):
    """The document's points on the drawing's lattice (None where they are not on it)."""
    def one(v, s, t):
        u = (v - t) / s
        k = round(u) if math.isfinite(u) and abs(u) < 1e9 else None
        return k if k is not None and abs(u - k) < 1e-4 else 2000000000
    return [[[one(x, sx, tx), one(y, sy, ty)] for x, y in p] for p in doc["pts"]]


def millis(doc):
    q = lambda v: round(v * 1000) if math.isfinite(v) and abs(v) < 1e6 else 2000000000
    return [[[q(x), q(y)] for x, y in p] for p in doc["img"]]
