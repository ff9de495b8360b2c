"""An SVG document as a flat list of elements in document order, for the specification.
Numbers become integers in eighths; nothing is judged here."""
import re
import xml.etree.ElementTree as ET

INEXACT = -999999999
FULL = -888888888   # "100%"
NS = "{http://www.w3.org/2000/svg}"
NUM = {"x", "y", "width", "height", "rx", "ry", "x1", "x2", "y1", "y2", "cx", "cy", "r", "stroke-width"}
STR = {"fill": "fill", "stroke": "stroke", "text-anchor": "anchor", "dominant-baseline": "base"}
FONT = {"font-family": "family", "font-size": "size", "font-weight": "weight"}


def colour(v):
    v = {"white": "#ffffff", "black": "#000000"}.get(v, v)
    return "#" + "".join(2 * c for c in v[1:]) if re.fullmatch("#[0-9a-f]{3}", v) else v


def num(s):
    s = s.strip()
    if s == "100%":
        return FULL
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s):
        return INEXACT
    v = float(s) * 8
    return int(v) if v == int(v) and abs(v) < 2e8 else INEXACT


NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def path(d):
    """[["M",x,y],["L",x,y],["Q",cx,cy,x,y]…]; anything else ends the list with ["?"]"""
    out = []
    pos = 0
    rest = re.compile(r"[\s,]*([MLQ])((?:[\s,]*" + NUMBER + r")*)")
    while pos < len(d):
        m = rest.match(d, pos)
        if not m:
            if d[pos:].strip():
                out.append(["?"])
            break
        ns = [num(x) for x in re.findall(NUMBER, m.group(2))]
        k = 4 if m.group(1) == "Q" else 2
        if not ns or len(ns) % k:
            out.append(["?"])
            break
        for i in range(0, len(ns), k):
            out.append(["L" if m.group(1) == "M" and i else m.group(1)] + ns[i:i + k])
        pos = m.end()
    return [{"c": o[0], "p": o[1:]} for o in out]


def read(s):
    try:
        root = ET.fromstring(s)
    except Exception as e:
        return {"wf": False, "why": str(e)[:200], "view": [], "els": []}
    clips = {}
    for e in root.iter(NS + "clipPath"):
        clips.setdefault(e.get("id", ""), len(clips) + 1)
    els = []
    seen = 0

    def walk(e, depth):
        nonlocal seen
        tag = e.tag[len(NS):] if isinstance(e.tag, str) and e.tag.startswith(NS) else "?" + str(e.tag)
        n, s, f, other, d = {"_": 0}, {"_": ""}, {"_": ""}, [], []
        for k, v in e.attrib.items():
            if k in NUM:
                n[k.replace("stroke-width", "sw")] = num(v)
            elif k in STR:
                s[STR[k]] = colour(v.strip().lower())
            elif k in FONT:
                f[FONT[k]] = re.sub(r"\s*,\s*", ",", v.strip())
            elif k == "d" and tag == "path":
                d = path(v)
            elif k == "points" and tag == "polygon":
                pass
            elif k == "id" and tag == "clipPath":
                seen += 1
                # a second element of the same id is not found by it
                n["id"] = seen if clips.get(v) == seen else 0
            elif k == "clip-path":
                m = re.fullmatch(r"url\(#(.*)\)", v.strip())
                n["clip"] = clips.get(m.group(1), 0) if m else 0
            else:
                other.append(f"{k}={v}")
        if other:
            s["other"] = ";".join(sorted(other))
        if tag == "line" and s.get("stroke", "none") == "none":
            return  # nothing to be seen
        text = "".join(e.itertext()) if tag == "text" else (e.text or "").strip()
        els.append({"t": tag, "d": depth, "n": n, "s": s, "f": f, "text": [ord(c) for c in text], "path": d,
                    "tail": len((e.tail or "").strip()) if depth else 0})
        for k in e:
            walk(k, depth + 1)

    for k in root:
        walk(k, 1)
    vb = root.get("viewBox")
    view = [num(x) for x in re.split(r"[\s,]+", vb.strip())] if vb else []
    if root.tag != NS + "svg":
        return {"wf": False, "why": "root " + str(root.tag), "view": [], "els": []}
    return {"wf": True, "why": "", "view": view, "els": els}
