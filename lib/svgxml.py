"""Reads an SVG document into flat JSON events with an independent XML parser
(expat). It decides nothing; the specifications judge the events."""
import re
import xml.etree.ElementTree as ET

NS = "{http://www.w3.org/2000/svg}"
XL = "{http://www.w3.org/1999/xlink}"
WILD = 2147483647


def fx(s):
    """A number in thousandths; WILD when it is none (or too large)."""
    try:
        v = float(re.sub(r"px$", "", s.strip()))
    except (ValueError, AttributeError):
        return WILD
    if v != v or abs(v) * 1000 >= WILD:
        return WILD
    return int(round(v * 1000))


def tag(e):
    return e.tag.replace(NS, "") if isinstance(e.tag, str) else "?"


def ref(v):
    m = re.match(r"^url\(#(.*)\)$", v or "")
    return m.group(1) if m else ""


def path(d):
    out = []
    for m in re.finditer(r"([A-Za-z])([^A-Za-z]*(?:[eE][-+]?\d+[^A-Za-z]*)*)", d or ""):
        out.append({"c": m.group(1), "v": [fx(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", m.group(2))]})
    return out


def base(kind):
    return {"e": kind, "x": 0, "y": 0, "w": 0, "h": 0, "rx": 0, "fill": "", "stroke": "", "sw": 0, "clip": "", "dash": False,
            "ms": "", "me": "", "id": "", "href": "", "cls": "", "path": [], "lines": [], "xs": [], "dys": [], "text": "", "props": []}


def read(svg):
    """{ok, w, h, vb, els, ids, refs, markers, clips, fonts, texts}"""
    doc = {"ok": False, "w": WILD, "h": WILD, "vb": [], "els": [], "ids": [], "refs": [], "markers": [], "clips": [],
           "fonts": [], "classes": [], "texts": [], "root": ""}
    try:
        root = ET.fromstring(svg.encode("utf-8", errors="surrogatepass"))
    except (ET.ParseError, ValueError):
        return doc
    doc["ok"] = True
    doc["root"] = tag(root)
    doc["w"], doc["h"] = fx(root.get("width", "")), fx(root.get("height", ""))
    doc["vb"] = [fx(x) for x in root.get("viewBox", "").split()]
    for e in root.iter():
        if e.get("id") is not None:
            doc["ids"].append(e.get("id"))
        for k, v in e.attrib.items():
            for m in re.findall(r"url\(#([^)]*)\)", v):
                doc["refs"].append(m)
            if k in ("href", XL + "href") and v.startswith("#"):
                doc["refs"].append(v[1:])
        t = tag(e)
        if t == "marker":
            pts = [[fx(x) for x in re.split(r"[ ]+", p.strip())] for poly in e if tag(poly) == "polygon"
                   for p in (poly.get("points") or "").split(",")]
            doc["markers"].append({"id": e.get("id", ""), "refx": fx(e.get("refX", "")), "refy": fx(e.get("refY", "")),
                                   "pts": [p for p in pts if len(p) == 2], "orient": e.get("orient", "")})
        if t == "clipPath":
            r = [x for x in e if tag(x) == "rect"]
            c = base("clip")
            c["id"] = e.get("id", "")
            if r:
                c.update(geo(r[0]))
            doc["clips"].append(c)
        if t == "style":
            for m in re.finditer(r"\.([\w-]+)\s*\{([^}]*)\}", e.text or ""):
                s = re.search(r"font-size:\s*([\d.]+)px", m.group(2))
                doc["fonts"].append({"cls": m.group(1), "fs": fx(s.group(1)) if s else WILD})
    walk(root, [], doc)
    for el in doc["els"]:
        if el["e"] in ("text", "textpath"):
            doc["texts"].append(el["lines"])
            doc["classes"].append(el["cls"])
    return doc


def geo(e):
    return {"x": fx(e.get("x", "0")), "y": fx(e.get("y", "0")), "w": fx(e.get("width", "0")), "h": fx(e.get("height", "0")),
            "rx": fx(e.get("rx", "0"))}


def walk(node, props, doc):
    for e in node:
        t = tag(e)
        if t in ("defs", "style", "clipPath"):
            continue
        if t == "g":
            walk(e, props + [[k, v] for k, v in sorted(e.attrib.items())], doc)
            continue
        el = base(t)
        el["props"] = props
        el["fill"], el["stroke"] = e.get("fill", ""), e.get("stroke", "")
        el["sw"] = fx(e.get("stroke-width", "0"))
        el["clip"] = ref(e.get("clip-path"))
        if t == "rect":
            el.update(geo(e))
        elif t == "ellipse":
            el.update({"x": fx(e.get("cx", "0")), "y": fx(e.get("cy", "0")), "w": fx(e.get("rx", "0")), "h": fx(e.get("ry", "0"))})
        elif t == "line":
            el.update({"x": fx(e.get("x1", "0")), "y": fx(e.get("y1", "0")), "w": fx(e.get("x2", "0")), "h": fx(e.get("y2", "0"))})
        elif t == "path":
            el.update({"id": e.get("id", ""), "path": path(e.get("d")), "dash": e.get("stroke-dasharray") not in (None, "none", ""),
                       "ms": ref(e.get("marker-start")), "me": ref(e.get("marker-end"))})
        elif t == "text":
            tp = [x for x in e if tag(x) == "textPath"]
            if tp:
                el["e"] = "textpath"
                el["href"] = (tp[0].get("href") or tp[0].get(XL + "href") or "")[1:]
                el["cls"] = tp[0].get("class", "")
                el["text"] = "".join(e.itertext())
                el["lines"] = [el["text"]] if el["text"] else []
            else:
                el["x"], el["y"] = fx(e.get("x", "0")), fx(e.get("y", "0"))
                el["cls"] = e.get("class", "")
                sp = [x for x in e if tag(x) == "tspan"]
                el["lines"] = ["".join(x.itertext()) for x in sp]
                el["xs"] = [fx(x.get("x", "")) for x in sp]
                el["dys"] = [fx(re.sub("em$", "", x.get("dy", ""))) if x.get("dy", "").endswith("em") else WILD for x in sp]
                loose = (e.text or "") + "".join(x.tail or "" for x in sp)
                if loose.strip():
                    el["lines"].append(loose)
                    el["xs"].append(WILD)
                    el["dys"].append(WILD)
        doc["els"].append(el)
        if t not in ("text",):
            walk(e, props, doc)
    # Text that stands outside of any text element is no label.
    if tag(node) in ("svg", "g"):
        loose = (node.text or "").strip() + "".join((x.tail or "").strip() for x in node)
        if loose:
            el = base("loose")
            el["lines"] = [loose]
            doc["els"].append(el)
            doc["texts"].append([loose])
