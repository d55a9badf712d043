"""Reads the texts of single SVG elements with an independent XML parser: which attributes
they have, in the names of the specification (specs/Elements.tla)."""
import re, struct
import xml.etree.ElementTree as ET
import svgdoc


def read(text, means):
    """-> (name of the element, its attributes)"""
    try:
        el = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as e:
        return "ill-formed: %s" % e, []
    tag = el.tag[len(svgdoc.NS):] if el.tag.startswith(svgdoc.NS) else el.tag
    out = []

    def num(v):
        try:
            b = struct.pack(">d", float(v)).hex()
        except ValueError:
            return "?" + v
        return means["nums"].get(b, "b" + b)

    def width(v):
        try:
            b = struct.pack(">f", float(v)).hex()
        except (ValueError, OverflowError):
            return "?" + v
        return means["widths"].get(b, "b" + b)

    def chars(v):
        return [means["chars"].get(c, c) for c in v]
    for n in ("cx", "cy", "r"):
        if n in el.attrib:
            out.append({"n": n, "v": num(el.get(n))})
    for n in ("fill", "stroke"):
        if n in el.attrib:
            out.append({"n": n, "v": chars(el.get(n))})
    if "stroke-width" in el.attrib:
        out.append({"n": "stroke-width", "v": width(el.get("stroke-width"))})
    if el.get("d", "").strip():
        try:
            d = [{"c": c, "x": num(repr(p[0])), "y": num(repr(p[1]))} for c, p in zip(*svgdoc.path_data(el.get("d")))]
        except ValueError as e:
            d = [{"c": str(e), "x": "?", "y": "?"}]
        out.append({"n": "d", "v": d})
    for n in ("height", "width"):
        if n in el.attrib:
            out.append({"n": n, "v": num(re.sub(r"px$", "", el.get(n).strip()))})
    if tag == "transform":
        m = re.fullmatch(r"\s*(scale|translate)\s*\(\s*([^\s,]+?)(?:\s*[\s,]\s*([^\s,]+?))?\s*\)\s*", el.get("t", ""))
        if not m:
            return "not one transformation: " + el.get("t", ""), []
        tag = m.group(1)
        out.append({"n": tag, "v": [num(m.group(2)), num(m.group(3) or (m.group(2) if tag == "scale" else "0"))]})
    if len(el) or (el.text or "").strip():
        return "an element with contents", []
    return {"g": "group", "svg": "document"}.get(tag, tag), out
