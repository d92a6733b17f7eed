"""Seeded random input generators."""


def smap_random(rng, cnt):
    res = []
    for _ in range(cnt):
        big = rng.random() < 0.1
        keys = ["k%d" % j for j in range(rng.randint(10, 30) if big else rng.randint(1, 6))]
        depth, ops, tall = 0, [], rng.choice([2, 40])
        if rng.random() < 0.06:
            # Full scopes, around scopes that stay empty.
            keys = ["k%d" % j for j in range(rng.choice([rng.randint(9, 30), rng.randint(31, 70)]))]
            for _ in range(rng.randint(1, 6)):
                ops.append({"o": "push", "key": "", "v": 0})
                ops += [{"o": "ins", "key": k, "v": rng.randint(0, 9)} for k in rng.sample(keys, rng.choice([0, 1, len(keys) // 2, len(keys)]))]
                depth += 1
        for _ in range(rng.randint(60, 150) if big else rng.randint(1, 40)):
            r = rng.random()
            if big and depth < tall and r > 0.5:
                r = 0
            if depth == 0 or r < 0.25:
                ops.append({"o": "push", "key": "", "v": 0})
                depth += 1
            elif r < (0.3 if big else 0.45):
                ops.append({"o": "pop", "key": "", "v": 0})
                depth = max(0, depth - 1)
            else:
                ops.append({"o": "ins", "key": rng.choice(keys), "v": rng.randint(0, 9)})
        res.append({"op": "smap", "keys": keys, "ops": ops})
    return res


def longest(n, edges):
    """The length of the longest path into each node, or None."""
    lv = [0] * n
    for _ in range(n + 1):
        old = list(lv)
        for a, b in edges:
            if a != b:
                lv[b] = max(lv[b], lv[a] + 1)
        if lv == old:
            return lv
    return None


def dag_random(rng, cnt):
    res = []
    for j in range(cnt):
        n, ops, edges, level = 0, [], [], {}
        wild = rng.random() < 0.15      # may create cycles
        big = j % 12 == 7
        maxn = rng.randint(2, 8)

        def edge(a, b):
            edges.append((a, b))
            ops.append({"o": "edge", "a": [a, b]})

        def new(k):
            nonlocal n
            ops.append({"o": "new" if k == 1 else "news", "a": [] if k == 1 else [k]})
            level.update({n + q: 0 for q in range(k)})
            n += k

        def rank():
            ops.append({"o": "rank", "a": []})
            level.update(enumerate(longest(n, edges) or []))
        if big:
            kind = j // 12 % 5
            if kind == 0:
                # A long path, listed in any order.
                maxn = rng.choice([34, 42, 50])
                new(maxn)
                path = list(zip(range(maxn), range(1, maxn)))
                for a, b in rng.sample(path, len(path)):
                    edge(a, b)
                rank()
            elif kind == 1:
                # Many edges.
                maxn = rng.randint(34, 40)
                new(maxn)
                for _ in range(3 * maxn):
                    a, b = rng.sample(range(maxn), 2)
                    edge(min(a, b), max(a, b))
                rank()
            elif kind == 2:
                # A wide row, in which nodes are moved in front of others.
                maxn = rng.randint(12, 24)
                new(maxn)
                for q in range(14):
                    if q % 2:
                        # To another level, before a node there or at its end.
                        a = rng.randrange(maxn)
                        level[a] = rng.randrange(3)
                        ops.append({"o": "move", "a": [a, level[a]]})
                    a, m = rng.sample(range(maxn), 2)
                    level[a] = level[m]
                    ops.append({"o": "move", "a": [a, level[m], m]})
                    if q % 3 == 2 and any(v for v in level.values()):
                        # A node below, back into the first row.
                        a = rng.choice([x for x in range(maxn) if level[x]])
                        m = rng.choice([x for x in range(maxn) if not level[x]])
                        level[a] = 0
                        ops.append({"o": "move", "a": [a, 0, m]})
            elif kind == 3:
                # A node with many successors or predecessors, some of them twice.
                maxn = rng.choice([28, 36, 44])
                new(maxn)
                up = j // 60 % 2 == 0
                for q in rng.sample(range(maxn - 1), maxn - 1) + [rng.randrange(maxn - 1) for _ in range(5)]:
                    edge(*((q, maxn - 1) if up else (0, q + 1)))
                rank()
                for _ in range(8):
                    e = rng.choice(edges)
                    edges.remove(e)
                    ops.append({"o": "unedge", "a": list(e)})
            else:
                # Two nodes with many edges, and at the end a cycle through them.
                maxn = rng.randint(12, 24)
                new(maxn)
                for q in range(2, maxn):
                    edge(0, q)
                    edge(1, q)
                edge(0, 1)
                ops.append({"o": "verify", "a": []})
                edge(rng.choice([1, 1, rng.randrange(1, maxn)]), 0)
                ops.append({"o": "verify", "a": []})
        for _ in range(rng.randint(3, 25) if not big else rng.randint(2, 8)):
            r = rng.random()
            if n == 0 or (r < 0.15 and n < maxn):
                new(rng.choice([1, 1, 2, 3]))
            elif r < 0.5:
                a, b = rng.randrange(n), rng.randrange(n)
                if not wild and a > b:
                    a, b = b, a
                edge(a, b)
            elif r < 0.62:
                a, b = rng.choice(edges) if edges and rng.random() < 0.8 else (rng.randrange(n), rng.randrange(n))
                if (a, b) in edges:
                    edges.remove((a, b))
                ops.append({"o": "unedge", "a": [a, b]})
            elif r < 0.7:
                a = rng.randrange(n)
                level[a] = rng.randrange(5 if not big else maxn)
                ops.append({"o": "move", "a": [a, level[a]]})
            elif r < 0.8:
                # In front of another node, in the level of that one.
                a, m = rng.randrange(n), rng.randrange(n)
                if a != m:
                    level[a] = level[m]
                    ops.append({"o": "move", "a": [a, level[m], m]})
            elif r < 0.9:
                rank()
            elif r < 0.97:
                ops.append({"o": "verify", "a": []})
            else:
                ops.append({"o": "clear", "a": []})
                n, edges, level = 0, [], {}
        res.append({"op": "dag", "ops": ops})
    return res


# ---------------------------------------------------------------- DOT programs
NAMES = ["a", "b", "c", "d", "e", "n1", "n2", "Node", "x_y", "7", "42", "-3", "1.5", "\"a\"", "\"two words\"",
         "\"node\"", "\"q\\\"q\"", "\"l1\\nl2\"", "\"back\\\\slash\"", "\"\u00e9\u4e2d\"", "\"\"", "GRAPH", "\" a\"", "\"a \"", "\" \"", "A", "B", "N1", "\"a:p\"", "\"\u00c9\u4e2d\"",
         "\"a\u0301\"", "\"\u00e1\"", "\"1.50\"", "01", "1", "1.", "\"n1;\"", "a1", "\"\ta\"", "nodes", "a" * 40, "a" * 41]
PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h"]
PORTS = ["p", "q", "f0", "\"port 1\"", "n", "7", "\"\"", "P", "\" p\"", "e", "\"a:b\""]
KEYS = ["label", "shape", "color", "style", "fillcolor", "fontsize", "width", "penwidth", "rankdir", "foo", "7", "\"x y\""]
VALS = {
    "label": ["hi", "\"two words\"", "\"l1\\nl2\"", "\"<p> a|{b|<q> c}\"", "\"\"", "\"a|b\"", "12", "\"{x|{y|z}}\"", "\"<f0>|<f1> t\"", "\"long label text here\"", "\"&<>\""],
    "shape": ["box", "circle", "doublecircle", "record", "Mrecord", "hexagon", "\"Box\"", "ellipse"],
    "color": ["red", "blue", "transparent", "\"#112233\"", "\"#AABBCCDD\"", "\"red:blue\"", "\"green:blue:red\"", "nosuch", "Black", "\"\"", "lightgoldenrodyellow"],
    "fillcolor": ["green", "\"#445566\"", "transparent", "\"yellow:red\"", "bogus", "white", "gray"],
    "style": ["filled", "dashed", "dotted", "bold", "rounded", "\"filled,dashed\"", "solid"],
    "fontsize": ["10", "14", "33", "0", "-5", "12.5", "big", "\" 8\"", "\"007\"", "\"\""],
    "width": ["1", "3", "0", "-1", "2.5", "x"],
    "penwidth": ["1", "4", "0", "-1", "1.5", "thick"],
    "rankdir": ["LR", "TB", "lr", "RL", "\"LR\"", "\" LR\"", "\"LR \"", "\"LR\\n\"", "LRB", "BT", "Lr", "\"\"", "\"L R\""],
}


# Attributes that other DOT tools know, and that this one ignores.
OTHERS = {
    "dir": ["none", "back", "both", "forward"], "arrowhead": ["none", "normal", "dot"], "arrowtail": ["normal", "none"], "arrowsize": ["0", "2"],
    "weight": ["0", "10"], "constraint": ["false", "true"], "minlen": ["0", "3"], "rank": ["same", "min", "max", "sink"], "group": ["g1"],
    "fontcolor": ["red", "white"], "fontname": ["Arial"], "height": ["3", "0.5"], "fixedsize": ["true"], "margin": ["0", "0.5"], "peripheries": ["0", "2"],
    "xlabel": ["x"], "headlabel": ["h"], "taillabel": ["t"], "samehead": ["s"], "headport": ["n", "p"], "tailport": ["s", "q"], "id": ["i1"], "class": ["k"],
    "URL": ["u"], "href": ["u"], "tooltip": ["tip"], "bgcolor": ["yellow"], "pencolor": ["red"], "linewidth": ["5"], "stroke": ["red"], "ordering": ["out"],
    "splines": ["line", "ortho", "false"], "nodesep": ["2"], "ranksep": ["2"], "concentrate": ["true"], "rotate": ["90"], "landscape": ["true"], "orientation": ["LR", "90"],
    "direction": ["LR"], "Rankdir": ["LR"], "rankDir": ["LR"], "layout": ["dot"], "size": ["\"2,2\""], "ratio": ["fill"], "compound": ["true"], "labelloc": ["t", "b"], "labeljust": ["l"], "Label": ["other"],
    "Color": ["red"], "Shape": ["box"], "name": ["other"], "text": ["other"], "fill": ["red"], "line": ["dashed"], "port": ["p"], "sides": ["5"], "visible": ["false"], "decorate": ["true"],
    "lhead": ["c1"], "strict": ["true"] , "type": ["box"], "styles": ["dashed"], "font": ["20"], "FontSize": ["20"], "colour": ["red"],
}
del OTHERS["strict"]        # a keyword


def other(rng):
    k = rng.choice(list(OTHERS))
    return k, rng.choice(OTHERS[k])


def plain_other(rng):
    k, v = other(rng)
    return k, v.strip("\"")


def dot_id(rng, exotic=True):
    return rng.choice(NAMES) if exotic and rng.random() < 0.35 else rng.choice(PLAIN)


def dot_attrs(rng, keys=None, mx=3, sep=True):
    out = ["["]
    n = rng.choice([0, 1, 1, 1, 2, 2, mx])
    for j in range(n):
        k = rng.choice(keys or KEYS)
        v = rng.choice(VALS.get(k, ["1", "v", "\"v w\""]))
        if rng.random() < 0.2:
            k, v = other(rng)
        out += [k, "=", v]
        r = rng.random()
        if j + 1 < n:
            if r < 0.5:
                out.append(",")
            elif r < 0.75:
                out.append(";")
        elif r < 0.1:
            out.append(rng.choice([",", ";"]))
    out.append("]")
    return out


def dot_node_id(rng, exotic, ports=0.2):
    out = [dot_id(rng, exotic)]
    if rng.random() < ports:
        out += [":", rng.choice(PORTS)]
    return out


def dot_stmts(rng, budget, depth, exotic, keys):
    out, start = [], 0
    while budget > 0:
        budget -= 1
        if out and rng.random() < 0.05:
            # The last statement once more.
            last = out[start:]
            out += ([] if out[-1] in (";", "}", "]") else [";"]) + last
            continue
        start = len(out)
        r = rng.random()
        bare = False
        if r < 0.22:
            out += dot_node_id(rng, exotic, 0.08)
            if rng.random() < 0.6:
                out += dot_attrs(rng, keys)
            else:
                bare = True
        elif r < 0.58:
            first = dot_node_id(rng, exotic)
            out += first
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out += [rng.choice(["->", "->", "--"])] + (dot_node_id(rng, exotic) if rng.random() < 0.93 else list(first))
            if rng.random() < 0.4:
                out += dot_attrs(rng, keys)
        elif r < 0.78:
            out += [rng.choice(["node", "edge", "graph"])] + dot_attrs(rng, keys)
        elif r < 0.86:
            k = rng.choice(["rankdir", "rankdir", "label", "foo"])
            out += [k, "=", rng.choice(VALS.get(k, ["v"]))] if rng.random() < 0.8 else list(other(rng)[:1]) + ["=", rng.choice(["LR", "true", "red", "10"])]
        elif depth > 0:
            k = rng.randint(0, max(0, min(budget, 6)))
            budget -= k
            q = rng.random()
            if q < 0.5:
                out += ["subgraph", dot_id(rng, exotic)]
            elif q < 0.7:
                out += ["subgraph"]
            out += ["{"] + dot_stmts(rng, k, depth - 1, exotic, keys) + ["}"]
        else:
            continue
        if bare or rng.random() < 0.7:
            out.append(";")
    return out


def dot_program(rng, size=12, depth=3, exotic=True, keys=None, wide=False):
    """With `wide`, each plain name stands for one of many."""
    out = []
    if rng.random() < 0.15:
        out.append("strict")
    out.append(rng.choice(["digraph", "digraph", "graph"]))
    if rng.random() < 0.6:
        out.append(dot_id(rng, exotic))
    out.append("{")
    body = dot_stmts(rng, rng.randint(0, size), depth, exotic, keys)
    if wide:
        body = ["m%d" % rng.randint(0, 99) if t in PLAIN else t for t in body]
    out += body
    out.append("}")
    return out


def dot_large(rng):
    """Programs in which one thing is long, wide, deep or repeated."""
    n = rng.choice([9, 12, 16, 17, 24, 33, 40])
    f = rng.randrange(7)
    ident = lambda: dot_node_id(rng, True)
    if f == 0:
        b = ident() + sum(([rng.choice(["->", "--"])] + ident() for _ in range(n)), []) + dot_attrs(rng)
    elif f == 1:
        b = [rng.choice(["node", "a", "a -> b"])] + sum((dot_attrs(rng, mx=n)[:-1] if not j else [rng.choice([",", ";", ","]), "k%d" % j, "=", "v"] for j in range(n)), []) + ["]"]
    elif f == 2:
        b = sum((rng.choice([["{"], ["subgraph", "{"], ["subgraph", dot_id(rng), "{"]]) + (dot_stmts(rng, 1, 0, True, None) if j % 3 == 0 else []) for j in range(n)), []) \
            + sum((["}"] + (dot_stmts(rng, 1, 0, True, None) if j % 4 == 0 else []) for j in range(n)), [])
    elif f == 3:
        b = dot_stmts(rng, 3 * n, 2, True, None)
    elif f == 4:
        b = sum(([dot_id(rng), ";"] for _ in range(2 * n)), [])
    elif f == 5:
        b = sum((["n%d" % j, rng.choice(["->", "--"]), "n%d" % (j + 1), ";"] for j in range(2 * n)), [])
    else:
        b = sum((["subgraph", "s%d" % j, "{", "x%d" % j, "}"] for j in range(n)), [])
    return ["digraph", "G", "{"] + b + ["}"]


def dot_mutate(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 2])):
        if not toks:
            break
        j = rng.randrange(len(toks))
        r = rng.random()
        if r < 0.3:
            del toks[j]
        elif r < 0.5:
            toks.insert(j, toks[j])
        elif r < 0.7:
            k = rng.randrange(len(toks))
            toks[j], toks[k] = toks[k], toks[j]
        elif r < 0.9:
            toks.insert(j, rng.choice(["{", "}", "[", "]", "=", ":", ",", ";", "->", "--", "node", "edge", "graph",
                                       "subgraph", "digraph", "strict", "a", "\"s\"", "5"]))
        else:
            toks = toks[:j]
    return toks


SEPS = [" ", " ", " ", "\n", "\t", "\r\n", "  ", " /* c */ ", " // c\n", "/**/", "/* * \" ** */", " //\"x{}\r", "\n\n"]


def is_word(t):
    return t[-1].isalnum() or t[-1] in "_." or t[0].isalnum()


def dot_join(rng, toks, plain=False):
    out = []
    for j, t in enumerate(toks):
        if j:
            prev = toks[j - 1]
            need = (prev[-1].isalnum() or prev[-1] in "_.") and (t[0].isalnum() or t[0] in "._-")
            need = need or (prev[-1] == "-" ) or (prev[-1] == ">" and False)
            if plain:
                out.append(" ")
            elif need or rng.random() < 0.6:
                out.append(rng.choice(SEPS))
        out.append(t)
    if not plain and rng.random() < 0.3:
        out.append(rng.choice(SEPS + ["// end", "// end\r", "/* end */"]))
    return "".join(out)


def chars(s):
    return list(s)


LEXBITS = ["r", "t", "N", "\x0b", "\u00a0", "\u3000", "\ufeff", "a", "b", "Z", "_", "0", "9", ".", "-", ">", "\"", "\\", "/", "*", "\n", "\r", " ", "\t", "{", "}", "[", "]",
           "=", ";", ":", ",", "n", "l", "node", "edge", "graph", "digraph", "strict", "subgraph", "nodes", "Node",
           "//", "/*", "*/", "->", "--", "-1", "1.5", "\"x\"", "#", "<", "\u00e9", "\u4e2d", "\f", "&", "'", "+", "\"a\\\"b\""]


def lex_random(rng, cnt, mx=25):
    return [{"op": "lex", "text": chars("".join(rng.choice(LEXBITS) for _ in range(rng.randint(1, mx))))}
            for _ in range(cnt)]


LEXCHARS = [chr(j) for j in range(1, 128)] + list(
    "\u0080\u0085\u00a0\u00ad\u00b2\u00bd\u00df\u00e9\u0130\u0131\u0660\u0967\u1680\u2003\u200b\u2014\u2028\u202f\u2160\u2460\u2192\u3000"
    "\u4e2d\ufeff\uff11\uff21\uff0d\ufffd\ue000") + ["\U00010000", "\U0001f600"]
LEXPLACES = ["@", "a@", "@a", "a@b", "1@", "1@2", "0@", "007@", "-0@", "0.@", "-@", "-@1", "-1@2", "1.@", "\"@\"", "\"\\@\"", "\"a\\@b\" c", "\"\\@", "//@\nx", "//x@y\nz",
             "/*@*/x", "/*@/ */x", "/**@*/x", "/*x*@/ y*/z", "{@}", "a @ b", "a\n@b", "\n@", "\n@ x\ny", "=@=", "\"@", "a//@", "@ a", "@=", "a@ ", "graph@", "@node",
             "a[b@c]", "a->@b", "a-@", "a@\"b\"", "x=@y", "@@", "a@@b"]


def lex_places():
    """Every character in every kind of place."""
    return [p.replace("@", c) for p in LEXPLACES for c in LEXCHARS]


def lex_words():
    """Everything that is nearly a keyword, and tokens of many lengths."""
    out = []
    for k in ("graph", "node", "edge", "digraph", "strict", "subgraph"):
        ks = [k, k.upper(), k.capitalize(), k.swapcase(), k[:-1], k[1:], k + k] + [k[:j] + k[j].upper() + k[j + 1:] for j in range(len(k))]
        for x in ks:
            out += [x] + [a % x for a in ("%s x", "%ss", "%s1", "%s_", "_%s", "a%s", "1%s", "%s.", "%s-", "-%s", "%s;", "\"%s\"", "%s\"\"", "/**/%s/**/",
                                          "%s\u00e9", "{%s}", "%s[", "%s=%s" % ("%s", k))]
        out += [a + b for a in (k,) for b in ("graph", "node", " edge", "\tdigraph")]
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2049):
        out += ["a" * n + "=", "7" * n + ";", "-" + "7" * n + ";", "7" * n + "." + "1" * n, "\"" + "x y" * (n // 3) + "z" * (n % 3) + "\"a", "//" + "x" * n + "\nb", "/*" + "* /" * (n // 3) + "*/b",
                "0" * n + "1;", "9" * n + "-", "-0" + "9" * n, "0." + "0" * n + "1", "." + "5" * n, "1" + "0" * n + "." + "0" * n + "9",
                " " * n + "a", "\n" * n + "a", "a " * n, "{}" * n, "-> " * n, "\"\\n" + "\\\"" * n + "\"b", "_" * n, "a_" * n + "=", "a" * n + "\"\"", "/**/" * n + "a",
                "//\n" * n + "a"]
    return out


def char_mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        j = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.35 and s and j < len(s):
            del s[j]
        elif r < 0.7:
            s.insert(j, rng.choice(["{", "}", "[", "]", "\"", "\\", "/", "*", "-", ">", "=", ":", ";", ",", "\n", ".", "1", "a", "\u00e9", "#"]))
        elif r < 0.85:
            s = s[:j]
        elif s and j < len(s):
            s[j] = rng.choice(["\"", "/", "*", "-", "{", "}", ";", "\n", "\\"])
    return "".join(s)


# ------------------------------------------------- programs for the builder
def quote(s):
    return "\"" + s.replace("\\", "\\\\").replace("\"", "\\\"") + "\""


def dot_list(a):
    return "[" + ", ".join(quote(k) + "=" + quote(v) for k, v in a) + "]" if a else ""


def history_program(rng, evs, key=None, values=None):
    """A statement history of the builder specification as program text. The
    abstract attribute 'k' becomes `key`, with `values` for its values."""
    def ren(a):
        return [(key if k == "k" and key else k, values[v] if values else v) for k, v in a]
    out = []
    for j, e in enumerate(evs):
        a = ren(e["a"])
        if e["e"] == "open":
            out.append("digraph g {" if j == 0 else rng.choice(["subgraph s%d {" % j, "subgraph {", "{", "subgraph s {"]))
        elif e["e"] == "close":
            out.append("}")
        elif e["e"] == "attr":
            out.append("%s %s;" % (e["n"], dot_list(a) or "[]"))
        elif e["e"] == "node":
            out.append("%s %s;" % (quote(e["n"]), dot_list(a)))
        else:
            out.append("%s -> %s %s;" % (quote(e["n"]), " -> ".join(quote(h["n"]) for h in e["c"]), dot_list(a)))
    return " ".join(out)


PROBES = {"node": [("color", {"1": "red", "2": "blue"}), ("fontsize", {"1": "20", "2": "30"}),
                   ("label", {"1": "one", "2": "two"}), ("shape", {"1": "box", "2": "doublecircle"}),
                   ("fillcolor", {"1": "green", "2": "yellow"}), ("width", {"1": "3", "2": "4"}),
                   ("style", {"1": "filled", "2": "dashed"}), ("penwidth", {"1": "5", "2": "6"})]}

GOODVALS = {
    "label": ["hi", "\"two words\"", "\"l1\\nl2\"", "\"a|{b|c}\"", "\"x\"", "12", "\"\""],
    "shape": ["box", "circle", "doublecircle", "record", "Mrecord"],
    "color": ["red", "blue", "green", "\"#112233\"", "black", "\"\""],
    "fillcolor": ["red", "green", "\"#445566\"", "white"],
    "style": ["filled", "dashed", "solid", "\"\""],
    "fontsize": ["10", "14", "33"], "width": ["1", "3", "5"], "penwidth": ["1", "4", "2"],
}


def scoped_program(rng):
    """Scope-heavy programs with well-formed attribute values."""
    big = rng.random() < 0.05
    out, depth, n = ["digraph", "G", "{"], 1, rng.randint(60, 120) if big else rng.randint(3, 22)
    names = (PLAIN if not big else ["m%d" % j for j in range(40)])[: rng.randint(2, 6) if not big else 40]
    keys = list(GOODVALS)

    def al(mx=3):
        r = []
        for _ in range(rng.randint(1, mx)):
            k = rng.choice(keys)
            v = rng.choice(GOODVALS[k])
            if rng.random() < 0.12:
                k, v = other(rng)
            r += [k, "=", v] + ([","] if rng.random() < 0.5 else [])
        return ["["] + r + ["]"]
    for _ in range(n):
        r = rng.random()
        if big and depth < 25 and r < 0.5:
            r = r * r / 0.5
        if r < 0.15:
            out += rng.choice([["{"], ["subgraph", "{"], ["subgraph", rng.choice(["c1", "c2"]), "{"]])
            depth += 1
        elif r < 0.3 and depth > 1:
            out += ["}"]
            depth -= 1
        elif r < 0.33:
            k = rng.choice(keys)
            out += [k, "=", rng.choice(GOODVALS[k])] + ([";"] if rng.random() < 0.6 else [])
        elif r < 0.55:
            out += [rng.choice(["node", "edge", "node", "edge", "graph"])] + al() + ([";"] if rng.random() < 0.6 else [])
        elif r < 0.75:
            out += [rng.choice(names)] + (al() if rng.random() < 0.6 else []) + [";"]
        else:
            out += [rng.choice(names)]
            for _ in range(rng.choice([1, 1, 2, 3])):
                out += ["->", rng.choice(names)]
            out += (al() if rng.random() < 0.4 else []) + [";"]
    return dot_join(rng, out + ["}"] * depth)


WILD = {
    "color": ["red", "Red", "", "#", "#12", "#12345", "#1234567", "#123456789", "#GGGGGG", "#aabbcc", "#AABBCCDD", "#11223300", "#000000", "#00000000", "#000001", "#ffffffff", "#0000000a",
              "transparent", "red:blue", "blue:green:red", "#112233:red:bogus:red", "red:", ":red", "transparent:red", "lightgoldenrodyellow", "grey", "no such", "#12 456",
              "rebeccapurple", "\u00e9t\u00e9", "#\u00e9\u00e9\u00e9", "black ", "0xff0000"],
    "fontsize": ["1", "9", "14", "72", "0", "00012", "", " 14", "14 ", "-14", "14.0", "1e2", "big", "\u0661", "999", "0x10", "255", "256", "9999", "14px", "1_0", "+", "-", "1 2", "14\n", "\t14", "--14", "1e1", "14.", ".5", "\u00b2"],
    "width": ["1", "0", "12", "-1", "", "1.5", "w", "007", " 5", "5 ", "255", "256", "300", "70000", "2px", "5.0", "1e1", "0x2", "5,0", "5\n", "\u0665"],
    "style": ["filled", "dashed", "dotted", "Filled", "filled,dashed", "bold", "", "invis", "dashed,filled", " filled", "filled ", "Dashed", "dashed,bold", "rounded", "solid", "filled:dashed", "dash"],
    "shape": ["box", "Box", "circle", "doublecircle", "record", "Mrecord", "mrecord", "", "rect", "none", "record ", "square", "ellipse", "oval", "point", "BOX", "Record", "plaintext", "boxes", "DoubleCircle"],
    "label": ["", "a", "a\nb", "a\n", "\n", "a\r\nb", "long label with words", "<p>x|{y|<q> z}", "|", "{}", "{{a}|b", "}x", "&<>\"'",
              "\u4e2d\u6587 text", "a\n\nb\n", "trailing   ", "   leading", "short\na much longer second line", "x\ny\nz\nu\nv", "a\n   \nb", "tab\tstop", "a\n\n", "\n\n\n", "\n\nb", "a\n\n\n\n", " ", "   ", "\u00a0\u3000",
              "0", "a\u0301\u0301", "\\N", "\\G", "\\l", "w" * 70, "e\u200b", "a \n b ", "|a|b|", "<p>", "< p >  t  ", "a\\|b"],
}
WILD["fillcolor"] = WILD["color"]
WILD["penwidth"] = WILD["width"]


def wild_look(rng):
    who = rng.choice(["node", "node", "edge"])
    keys = list(WILD)
    lst = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        k = rng.choice(keys)
        v = rng.choice(WILD[k])
        if rng.random() < 0.15:
            k, v = plain_other(rng)
        lst.append((k, v))
    return look_program(who, lst, rng.choice(["n", "some name", "l1\nl2", "X"]))


def look_program(who, lst, name="n"):
    if who == "node":
        return "digraph { %s %s }" % (quote(name), dot_list(lst))
    return "digraph { %s -> m %s }" % (quote(name), dot_list(lst))


def css_names():
    import os, re
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Colors.tla")
    return re.findall(r'"(\w+)"\s*:>', open(p).read())


def nearly_css(rng):
    """Names that are nearly the name of a color."""
    out = []
    for x in css_names():
        out += [x + "1", x[:-1], x.capitalize(), "light" + x, "dark" + x, x.replace("gray", "grey"), x.replace("grey", "gray"), x + " ", x.replace("light", "").replace("dark", ""),
                x.replace("medium", ""), x + "50", "#" + x, x + "0", x.replace("o", "0")]
    out = sorted(set(x for x in out if x))
    return out


# ------------------------------------------------- graphs for the layout engine
COLORS = ["red", "green", "blue", "black", "orange", "purple", "brown", "navy", "teal", "maroon", "olive", "gray"]


def arrow_json(rng, f, t, text, j, plain=False):
    """An edge that can be told from every other edge of its graph."""
    e = {"f": f, "t": t, "text": text, "lc": "#%06x" % (j * 257 % 0xFFFFFF), "lw": 1 + j % 3, "fs": 8 + j % 20,
         "fc": [], "rd": 0, "sp": ["s%d" % j], "dp": ["d%d" % j], "start": False, "end": True, "style": "normal",
         "prop": []}
    if not plain:
        e["start"] = rng.random() < 0.3
        e["end"] = rng.random() < 0.8
        e["style"] = rng.choice(["normal", "normal", "dashed", "dotted", "none"])
        e["prop"] = [rng.choice(["p%d", "p%d", "p%d", "a\nb%d", " p%d ", "k=\"v  %d\"\tl='\u00e9'", "p%d " * 30]).replace("%d", str(j))] if rng.random() < 0.3 else []
        if e["prop"] and rng.random() < 0.05:
            e["prop"] = [""]
        e["lw"] = rng.choice([1 + j % 3, 0, 5, 9, 40])
        e["rd"] = rng.choice([0, 0, 7])
        e["fc"] = rng.choice([[], ["pink"]])
        if rng.random() < 0.15:
            e["fs"] = rng.choice([1, 30, 33, 41, 60, 100])
    e.update(rng.choice([{}, {}, {"sp": []}, {"dp": []}, {"sp": [], "dp": []}]))
    if rng.random() < 0.12:
        # The same port at both ends, of an edge whose ends look alike.
        e["sp"] = e["dp"] = [rng.choice(["s1", "q", "p"])]
        if rng.random() < 0.5:
            e["start"] = e["end"] = rng.random() < 0.3
    return e


def box_json(rng, j, plain=False):
    n = {"kind": "box", "text": "n%d" % j, "w": 60, "h": 40, "fs": 14, "lc": "black", "lw": 1, "fc": ["white"], "rd": 0,
         "prop": [], "rec": {"s": "", "p": []}}
    if not plain:
        n["kind"] = rng.choice(["box", "box", "circle", "dcircle", "none", "record"])
        n["w"], n["h"] = rng.randint(4, 160), rng.randint(4, 160)
        n["rec"] = rec_json(rng, 2)
        if rng.random() < 0.03:
            n["kind"], n["rec"] = "record", [rec_json(rng, 0) for _ in range(rng.randint(8, 20))]
    return n


def rec_json(rng, depth):
    if depth == 0 or rng.random() < 0.4:
        return {"s": rng.choice(["a", "bb", "long text", "", "x\ny", "-", "\nx", " "]), "p": rng.choice([[], [], ["s1"], ["d2"], ["q"], ["q"], ["qq"], ["Q"], ["q2"], ["1q"], ["q "], [" q"]])}
    return [rec_json(rng, depth - 1) for _ in range(rng.randint(1, 3))]


def edge_list_graph(rng, k, edges, ori="TB"):
    """Edges are (from, to, label)."""
    return {"ori": ori, "nodes": [box_json(rng, j, True) for j in range(k)],
            "edges": [arrow_json(rng, f, t, x, j) for j, (f, t, x) in enumerate(edges)]}


def edges_random(rng, k, m, cyclic=0.3, selfs=0.1, labels=0.3, dup=0.15):
    es, odd = [], ["-", "\nab", " ", "x ", " x", "a\n", "\n", "short\na longer line\nb"]
    for _ in range(m):
        if es and rng.random() < dup:
            f, t = rng.choice(es)[:2]
        else:
            f, t = rng.randrange(k), rng.randrange(k)
            if rng.random() < selfs:
                t = f
            elif f == t:
                t = (f + 1) % k
            if f > t and rng.random() > cyclic:
                f, t = t, f
        es.append((f, t, rng.choice(["x", "label", "two\nlines", "x", "label", "two\nlines"] + odd) if rng.random() < labels else ""))
    return es


def graph_random(rng, mx=10, plain=False):
    k = rng.randint(1, mx)
    m = rng.randint(0, min(2 * k + 2, 24))
    g = {"ori": rng.choice(["TB", "LR"]), "nodes": [box_json(rng, j, plain) for j in range(k)],
         "edges": [arrow_json(rng, f, t, x, j) for j, (f, t, x) in
                   enumerate(edges_random(rng, k, m, rng.choice([0, 0.3, 1]), rng.choice([0, 0.15]),
                                          rng.choice([0, 0.3, 0.8])))]}
    return g


def relabel(rng, n, edges):
    p = list(range(n))
    rng.shuffle(p)
    e = [[p[a], p[b]] for a, b in edges]
    rng.shuffle(e)
    return e


def two_chains(rng):
    """A short chain beside a long one, which sinks node by node from its end."""
    a, b = rng.choice([(8, 16), (14, 26), (14, 20), (20, 30), (30, 40)])
    lo, hi = list(range(a)), list(range(a, a + b))
    n = a + b + 1
    es = [[x, y] for c in (lo, hi) for x, y in zip(c, c[1:] + [n - 1])]
    if rng.random() < 0.3:
        es.append([0, rng.choice(lo[1:])])
    return n, es


def hub(rng):
    """A node with many edges, all of them long, and one with as many into it."""
    k, m = rng.randint(2, 5), rng.randint(10, 30)
    n = k + m + 2
    es = [[j, j + 1] for j in range(k - 1)] + [[k, k + 2 + j] for j in range(m)]
    es += [[k - 1, k + 2 + j] for j in range(m) if j < 3 or rng.random() < 0.9]
    if rng.random() < 0.5:
        es += [[k + 2 + j, k + 1] for j in rng.sample(range(m), rng.randint(1, m))]
    if rng.random() < 0.5:
        es += [[k + 1, k]] if not any(b == k + 1 for _, b in es) else []
    return n, es


def tall_graph(rng):
    """Edges over dozens of rows."""
    k = rng.randint(38, 60)
    es = [(j, j + 1, "") for j in range(k - 1)]
    es += [(0, k - 1, rng.choice(["", "x"])), (rng.randint(0, 9), k - 1 - rng.randint(0, 9), rng.choice(["", "y"])), (k - 1, rng.randint(0, 3), "")]
    rng.shuffle(es)
    return edge_list_graph(rng, k, es, rng.choice(["TB", "LR"]))


def returns(rng):
    """A node with many edges out, or in, and edges that come back to it from
    some of the others, by themselves or through a further node."""
    m = rng.randint(10, 26)
    k, out = m + 3, rng.random() < 0.6
    es = [(0, j, "") if out else (j, 0, "") for j in range(1, m + 1)]
    rng.shuffle(es)
    late = []
    for _ in range(rng.randint(1, 4)):
        j, v = rng.choice([rng.randint(1, m), es[-1][1 if out else 0], es[-2][1 if out else 0]]), rng.choice([0, m + 1, m + 2])
        way = [j, 0] if v == 0 else [j, v, 0]
        if not out:
            way.reverse()
        late += [(a, b, rng.choice(["", "", "x"])) for a, b in zip(way, way[1:])]
    return edge_list_graph(rng, k, es + late, rng.choice(["TB", "LR"]))


def layered(rng, tall=False, wide=False, huge=0):
    """Edges between neighbouring levels, with a spine that fixes the levels."""
    k = rng.random()
    widths = [rng.randint(1, 7) for _ in range(rng.randint(2, 6))]
    if k > 0.92:
        widths = [rng.randint(2, 3) for _ in range(rng.randint(10, 16))]
    elif k > 0.75:
        widths = [rng.randint(2, 4) for _ in range(rng.randint(3, 8))]
    if k < 0.04:
        widths = [rng.randint(8, 20) for _ in range(rng.randint(2, 3))]
    elif k < 0.08:
        widths = [rng.randint(1, 3) for _ in range(rng.randint(20, 30))]
    if tall:
        widths = [rng.randint(3, 5) for _ in range(rng.randint(11, 20))]
    if wide:
        widths = [rng.randint(2, 4), rng.randint(24, 44)]
        rng.shuffle(widths)
        widths = [1] * rng.randint(0, 1) + widths + [1] * rng.randint(0, 1)
    if huge == 1:
        widths = [rng.randint(1, 3) for _ in range(rng.randint(32, 70))]
    elif huge == 2:
        widths = [rng.randint(20, 26), rng.randint(20, 26)]
    fan = not tall and not wide and not huge and rng.random() < 0.06
    if fan:
        widths = [rng.randint(2, 4), rng.randint(7, 16)]
        rng.shuffle(widths)
        widths = [1] * rng.randint(0, 1) + widths + [1] * rng.randint(0, 1)
    base, rows, n = [], [], 0
    for w in widths:
        rows.append(list(range(n, n + w)))
        n += w
    es = []
    dense = rng.uniform(0.4, 0.95) if max(widths) < 8 and n < 40 and rng.random() < 0.2 else 0
    if huge == 2:
        dense = rng.uniform(0.4, 0.6)
    for r, q in zip(rows, rows[1:]):
        for b in q:
            es.append([rng.choice(r), b])
        es += [[a, b] for a in r for b in q if dense and rng.random() < dense]
        if fan and len(r) > 1 and len(q) > 1:
            # Each node of the short row meets many in a row of the long one.
            for a in r if len(r) < len(q) else q:
                w = q if len(r) < len(q) else r
                lo = rng.randint(0, len(w) // 2)
                es += [[a, b] if len(r) < len(q) else [b, a] for b in w[lo: lo + rng.randint(2, len(w))]]
        for _ in range(rng.randint(0, (len(r) + len(q)) // (4 if wide else 1))):
            es.append([rng.choice(r), rng.choice(q)])
    if rng.random() < 0.4:
        es += [list(rng.choice(es)) for _ in range(rng.randint(1, 4))] if es else []
    return n, es


# --------------------------------------------------- programs for the pipeline
def families(rng, deep=False):
    """Regular graphs which stress one part of the engine each."""
    out = []

    def prog(edges, head="", kind="digraph", op="->"):
        out.append("%s { %s %s }" % (kind, head, " ".join("n%s %s n%s;" % (a, op, b) for a, b in edges)))
    for n in (1, 2, 3, 7, 30) + ((60,) if deep else ()):
        prog([(j, j + 1) for j in range(n)])
        prog([(j, (j + 1) % n) for j in range(n)])
        prog([(0, j) for j in range(1, n)] or [(0, 0)])
        prog([(j, n) for j in range(n)])
        prog([(0, 1)] * n)
        prog([(0, 0)] * min(n, 8))
        prog([(j, j + 1) for j in range(n)] + [(0, n)], "rankdir=LR")
    # Long chains, wide rows, many parallel edges, isolated nodes.
    for n in (45, 70) if deep else (45,):
        prog([(j, j + 1) for j in range(n)])
        prog([(0, j) for j in range(1, n)], "rankdir=LR")
        prog([(j, "x%d" % j) for j in range(n)])
        prog([(j, n) for j in range(n)], "edge [label=l]")
        out.append("digraph { %s }" % " ".join("i%d;" % j for j in range(n)))
        out.append("digraph { node [shape=record label=\"%s\"] r -> r }" % "|".join("<p%d> c%d" % (j, j) for j in range(n)))
        out.append("digraph { a [label=\"%s\"] a -> b [label=\"%s\"] }" % ("line\\n" * n, "w" * 40 * n))
        out.append("digraph { %s a -> b %s }" % ("subgraph s { " * n, "}" * n))
        out.append("digraph { a [%s] }" % ", ".join("k%d=v" % j for j in range(n)))
        out.append("digraph { a -> %s }" % " -> ".join("c%d" % (j % 30) for j in range(n)))
    for n in (2, 3, 4, 5):
        prog([(a, b) for a in range(n) for b in range(n)])
        prog([(a, "x%d" % b) for a in range(n) for b in range(n)])
        prog([("a%d" % a, "b%d" % b) for a in range(n) for b in range(n)], "edge [label=l]")
    # Ladders: the number of paths is exponential.
    for n in (10, 25):
        prog([(j, "%dx" % j) for j in range(n)] + [(j, "%dy" % j) for j in range(n)]
             + [("%dx" % j, j + 1) for j in range(n)] + [("%dy" % j, j + 1) for j in range(n)])
        prog([e for j in range(n) for e in ((j, j + 1), (j, j + 2))])
    for w, h in ((3, 3), (5, 4)):
        prog([("%d_%d" % (x, y), "%d_%d" % (x + 1, y)) for x in range(w) for y in range(h)]
             + [("%d_%d" % (x, y), "%d_%d" % (x, y + 1)) for x in range(w) for y in range(h)])
    out += ["digraph {}", "graph g { }", "strict digraph \"\" { a }", "digraph { a; b; c }", "digraph { a -> a [label=x] }",
            "graph { a -- b -- a [label=\"x\\ny\"] }", "digraph { subgraph s { } }", "digraph { {{{ a }}} -> b }" if False else "digraph { {{{ a }}} }",
            "digraph { rankdir=LR node [shape=record] a [label=\"{|||}\"] a -> a }",
            "digraph { node [shape=record] a [label=\"<p>x|{y|<q>z}\"]; a:p -> a:q; a:q -> b:p; b:nowhere -> a }",
            "digraph { node [fontsize=0] a [label=\"\"] a -> b [fontsize=0 label=\"\"] }",
            "digraph { edge [style=dashed penwidth=0] a -> b -> c -> a }",
            "digraph { a [label=\"NaN inf\"] a -> b [label=\"inf NaN\"] }"]
    return out


def wild_program(rng):
    """Programs that derive from the grammar, with every attribute gone wild."""
    out = [rng.choice(["digraph G", "graph G", "strict digraph"]), "{"]
    if rng.random() < 0.4:
        out.append("rankdir=%s;" % rng.choice(["LR", "TB", "LR", "x"]))
    names = PLAIN[: rng.randint(1, 8)] + rng.sample(["two words", "", "l1\nl2", "n\u00e9", "-", "\x01", "<&>\"'", "a" * 50], 2)
    wild = dict(WILD)
    wild["fontsize"] = ["0", "1", "14", "400", "10000", "-3", "x"]

    def al():
        ks = [rng.choice(list(wild)) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        return dot_list([(k, rng.choice(wild[k])) if rng.random() < 0.85 else plain_other(rng) for k in ks])
    for _ in range(rng.randint(0, 16)):
        r = rng.random()
        if r < 0.15:
            out.append("%s %s;" % (rng.choice(["node", "edge"]), al() or "[]"))
        elif r < 0.4:
            out.append("%s %s;" % (quote(rng.choice(names)), al()))
        else:
            n = [quote(rng.choice(names)) + (":" + rng.choice(PORTS) if rng.random() < 0.2 else "")
                 for _ in range(rng.choice([2, 2, 2, 3, 4]))]
            out.append("%s %s;" % (rng.choice([" -> ", " -- "]).join(n), al()))
    return " ".join(out) + " }"


def graph_program(k, edges):
    return "digraph { %s %s }" % (" ".join("n%d;" % j for j in range(k)),
                                  " ".join("n%d -> n%d %s;" % (f, t, dot_list([("label", x)] if x else [])) for f, t, x in edges))


# ------------------------------------------------------ layouts and drawings
def big_graph(rng, plain=False):
    """A long chain, a wide row, a dense part, or something in between."""
    k = rng.randint(24, 44)
    f = rng.randrange(7)
    if f == 5:
        # Edges over many rows.
        k = rng.randint(16, 30)
        es = [(j, j + 1) for j in range(k - 1)] + [(0, k - 1), (rng.randint(0, 2), rng.randint(k - 4, k - 1)), (k - 1, 0)]
    elif f == 6:
        k = rng.randint(8, 12)
        es = [(rng.randrange(k), rng.randrange(k)) for _ in range(rng.randint(66, 90))]
    elif f == 0:
        es = [(j, j + 1) for j in range(k - 1)] + [(rng.randrange(k), rng.randrange(k)) for _ in range(3)]
    elif f == 1:
        es = [(0, j) for j in range(1, k)]
    elif f == 2:
        es = [(j, k - 1) for j in range(k - 1) if j % 5] + [(k - 1, 0)]
    elif f == 3:
        k = rng.randint(3, 5)
        es = [(rng.randrange(k), rng.randrange(k)) for _ in range(40)]
    else:
        es = [e[:2] for e in edges_random(rng, k, k, 0.2, 0.05, 0, 0.1)]
    lab = rng.choice([0, 0, 0.1] if f not in (1, 2) else [0, 0.1, 0.9])
    es = [(a, b, "x" if rng.random() < lab else "") for a, b in es]
    return {"ori": rng.choice(["TB", "LR"]), "nodes": [box_json(rng, j, plain) for j in range(k)],
            "edges": [arrow_json(rng, a, b, x, j) for j, (a, b, x) in enumerate(es)]}


NODETEXTS = ["", "-", "\nabc", " ", "a", "two words", "l1\nl2", "a\nlonger line\nb\nc\nd", "\n", "a\n\nb", "été", "中文", "w" * 40, "x ", "w" * 300, "\n".join("l%d" % j for j in range(40))]


def layout_graph(rng, mx, square=False, big=False, giant=False):
    """A graph for the engine. Edges can be told apart by their look."""
    g = big_graph(rng) if big else graph_random(rng, mx)
    for n in g["nodes"]:
        # A shape that is not drawn has no border to draw edges to.
        n["lc"] = rng.choice(COLORS)
        n["lw"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 17, 60])
        n["fs"] = rng.choice([1, 8, 14, 14, 30, 72])
        n["fc"] = rng.choice([[], ["white"], ["pink"]])
        n["rd"] = rng.choice([0, 0, 1, 5, 15, 40])
        n["prop"] = rng.choice([[], [], ["class=\"c%d\"" % rng.randint(0, 9)]])
        if n["prop"] and rng.random() < 0.2:
            n["prop"] = [rng.choice(["", " rel='n' ", "rel='a'\n  rev='b'", "data-x=\"" + "y " * 40 + "\""])]
        n["w"], n["h"] = rng.choice([(40, 40), (16, 200), (rng.randint(16, 300), rng.randint(16, 300)), (60, 30)])
        if giant and rng.random() < 0.5:
            n["w"], n["h"] = rng.choice([(60, 2500), (2500, 60), (3001, 3001), (rng.randint(300, 5000), rng.randint(300, 5000))])
        n["eori"] = rng.choice(["same", "flip"])
        if rng.random() < 0.15:
            n["text"] = rng.choice(NODETEXTS)
        if n["kind"] == "none" and rng.random() < 0.7:
            n["kind"] = "box"
    for j, e in enumerate(g["edges"]):
        for k in ("f", "t"):
            if g["nodes"][e[k]]["kind"] == "none":
                g["nodes"][e[k]]["kind"] = "circle"
        if rng.random() < 0.5:
            e["sp"] = rng.choice([[], ["q"], ["q"], ["s1"], ["d2"], ["q "], [" q"], ["q\n"]])
            e["dp"] = rng.choice([[], ["q"], ["q"], ["s1"], ["d2"], ["q "], [" q"], ["Q"]])
        if square and e["text"]:
            e["text"] = rng.choice(["x", "ab\ncd"])
    return g


def small_layout(rng, g):
    """A graph of Gen_Layout, with looks by which its parts can be told apart."""
    nodes = []
    for j, k in enumerate(g["kinds"]):
        n = box_json(rng, j, True)
        n["kind"] = k
        n["lc"], n["lw"], n["fs"] = COLORS[j], rng.choice([0, 1, 2, 3, 5, 7, 20]), rng.choice([8, 14, 30])
        n["rd"] = rng.choice([0, 15]) if k in ("box", "record") else 0
        n["w"], n["h"] = rng.choice([(40, 40), (60, 30), (rng.randint(16, 200), rng.randint(16, 200))])
        n["rec"] = rec_json(rng, 2)
        n["eori"] = rng.choice(["same", "flip"])
        nodes.append(n)
    edges = []
    for j, e in enumerate(g["edges"]):
        a = arrow_json(rng, e["f"], e["t"], e["text"], j)
        a["style"] = e["style"]
        edges.append(a)
    return {"ori": g["ori"], "nodes": nodes, "edges": edges}


def record_label(rng, depth=3):
    """Labels of wide and deep records."""
    def cell(d):
        if d > 0 and rng.random() < 0.4:
            return "{" + row(d - 1) + "}"
        port = rng.choice(["", "", "", "<p>", "<q>", "<p> ", "<q> ", "<Q>", "< q >", "<pp>", "<f0>", "<>", "<q p>"])
        return port + rng.choice(["a", "bb", "some words", "", "l1\nl2", "x", "a much longer text than that", "u\nv\nw"])

    def row(d):
        return "|".join(cell(d) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 6])))
    return row(depth)


def record_large(rng):
    """Labels in which one thing is long, or there is much of it."""
    n = rng.choice([9, 16, 17, 24, 32, 33, 48, 64, 65, 100])
    cell = lambda j: rng.choice(["", "<p%d>" % j, "< p%d > " % j]) + rng.choice(["c%d" % j, "", "a b", "x\ny"])
    f = rng.randrange(6)
    if f == 0:
        return "|".join(cell(j) for j in range(n))
    if f == 1:
        return "{" + "|".join(cell(j) for j in range(n)) + "}|" + cell(n)
    if f == 2:
        return "|".join("{" + cell(j) + "|" + cell(j + 1) + "}" for j in range(n))
    if f == 3:
        return "<" + "p" * n + "> " + "word " * n + "|" + "y" * n + "|<" + "q " * n + ">z"
    if f == 4:
        return "".join("{" + cell(j) + "|" for j in range(n // 2)) + "end" + "".join("}" + rng.choice(["", "|" + cell(j)]) for j in range(n // 2))
    return "|".join(rng.choice(["", " ", "{}", "{|}", "<>", "<p>"]) for _ in range(n))


def record_program(rng, label):
    """One record and edges to its ports, in both directions."""
    big = rng.choice(["", " fontsize=25", " fontsize=8"])
    if rng.random() < 0.1:
        cells = ["x"] * rng.randint(1, 14)
        cells.insert(rng.randint(0, len(cells)), "w" * rng.choice([30, 60, 100]))
        cells.insert(rng.randint(0, len(cells)), rng.choice(["<p>", "<q>"]) + rng.choice(["", "y"]))
        label = "|".join(cells)
        if rng.random() < 0.3:
            label = "{" + label.replace("w", "w\n") + "}"
        big = " fontsize=%d" % rng.choice([14, 50, 60, 100, 144, 200])
    return "digraph { %s n [shape=%s label=%s%s]; a -> n:p [penwidth=2]; n:q -> b [penwidth=3]; n:p -> c [penwidth=4] }" % (
        rng.choice(["", "rankdir=LR;"]), rng.choice(["record", "Mrecord"]), quote(label), big)


def drawing_program(rng, big=False):
    """Programs with well-formed looks, whose edges differ by their pen width."""
    k = rng.randint(1, 9) if not big else rng.randint(20, 35)
    out = ["digraph G {"]
    if rng.random() < 0.4:
        out.append("rankdir=LR;")
    labels = ["a", "some text", "l1\nl2", "x|y", "<q>p|{<s1>two words|{c|<d2>d}|e}", "{a|b}|<q>c", "{{a|b|{c|d|e}}|f}", "", "w" * 12,
              "<q> a\nb | <q> c", "|", "{<q>}", " ", "a\n\nb", "short\na longer line", "a\nb\nc\nd\ne", "中文|é", " | ", "|".join("abcdefghijklmnopqr"),
              "{a|{b|{c|{d|{e|<q>f}}}}}", "<q>\n|x", "<q>a|{< q >b|c}|<Q>d", "a|bbbb|{c|dddddd|e}|<q>f|g", "<qq>b|<q>a|<Q>c", "<q>a|{<q2>x|<qq>y}|<xq>z", "{<q 1>m|<q>n|<1q>o}"]
    for j in range(k):
        shape = rng.choice(["box", "circle", "doublecircle", "record", "record", "Mrecord"])
        out.append("n%d %s;" % (j, dot_list([("shape", shape), ("label", rng.choice(labels))] + rng.sample(
            [("fontsize", rng.choice(["8", "14", "25"])), ("color", rng.choice(COLORS)), ("fillcolor", rng.choice(COLORS)),
             ("width", str(rng.randint(0, 5))), plain_other(rng)], rng.randint(0, 3)))))
    for j, (f, t, x) in enumerate(edges_random(rng, k, rng.randint(0, 2 * k if not big else k), rng.choice([0, 0.3, 1] if not big else [0]), rng.choice([0, 0.2]),
                                               rng.choice([0, 0.4] if not big else [0, 0.05]))):
        p = ["", "", ":q", ":s1", ":d2", ":zz"]
        a = [("penwidth", str(j + 1))] + ([("label", x.replace("\\n", "\n"))] if x else [])
        if rng.random() < 0.2:
            a.append(("style", "dashed"))
        if rng.random() < 0.15:
            a.append(plain_other(rng))
        if rng.random() < 0.3:
            a.append(("fontsize", rng.choice(["8", "20"])))
        out.append("n%d%s %s n%d%s %s;" % (f, rng.choice(p), rng.choice(["->", "->", "--"]), t, rng.choice(p), dot_list(a)))
    return " ".join(out) + " }"


# ------------------------------------------------------------- draw calls
PLAINTEXT = ["a", "label", "two words", "l1\nl2", "l1\n\nl3", "", "\n", "a\n", "x < y & \"z\" > 'w'", "</svg>", "<![CDATA[", "]]>", "&amp;",
             "\u00e9t\u00e9", "\u4e2d\u6587", "tab\there", "w" * 30, "<!-- c -->", "a--b", "\n".join("line %d" % j for j in range(45)), "long " * 80, "%d {} \\n", "trailing ", " lead", "ends\t", "\tstarts", "a\t\nb  \n\tc", "a \t",
             "\x01\x02", "\x00", "\ufffe", "a\x0bb", "<tspan>", "&#10;", "\u2028", "\uffff", "\ufdd0", "-", "\nabc", "a" + "".join(map(chr, range(1, 9))) + "b", "".join(map(chr, range(14, 32))), "".join(map(chr, range(127, 160))), "\U0001f600 smile", "\u007f",
             "\ufeffabc", "a\n\ufeffb", "\u200bzero\u200b", "\u00a0x\u00a0", "\u3000"]
COLORCODES = [("red", "#ff0000ff"), ("#00ff00", "#00ff00ff"), ("#12345678", "#12345678"), ("black", "#000000ff"), ("white", "#ffffffff"),
              ("transparent", None), ("#0000FF80", "#0000ff80")]
PROPVALS = [[], [], [], ["class=\"c1\""], ["id-x=\"7\" data-k=\"v w\""], ["onclick=\"f(&quot;1&quot;)\""], ["style='color: red'"], ["data-k=\"v  w\"   id-y='  '"], ["title=\"a&#10;b&amp;amp;\""]]


def safe_text(rng):
    if rng.random() < 0.002:
        return rng.choice(["z" * 3000, "word & " * 500, "x\n" * 200])
    return rng.choice(PLAINTEXT) if rng.random() < 0.8 else "".join(rng.choice("abc <>&\"'\n\u00e9") for _ in range(rng.randint(0, 12)))


def svg_script(rng, n, plan=None, bmp=False, arrows=False):
    """A history of draw calls; coordinates are in parts of a pixel ("q" parts
    make one). The colours are given with the code that the call asks for."""
    out, clips = [], 0
    big = rng.choice([40, 400, 4000, 40000, 40000, 1000000])
    q = rng.choice([4, 4, 64, 1000]) if big < 1000000 else 4

    def co():
        return rng.choice([0, rng.randint(-big, big), rng.randint(0, big), rng.randint(0, big)])
    for j in range(n):
        c = {"c": plan[j]["c"] if plan else rng.choice(["rect", "rect", "circle", "line", "text", "text", "arrow", "arrow", "clip"] if not arrows else ["arrow"] * 9 + ["text"]),
             "x": co(), "y": co(), "w": co(), "h": co(), "prop": rng.choice(PROPVALS), "clip": [], "text": "", "path": [],
             "dash": False, "hs": False, "he": False, "rd": 0, "q": q}
        if c["c"] != "line":
            c["w"], c["h"] = abs(c["w"]), abs(c["h"])
        lc = rng.choice([x for x in COLORCODES if x[1]])
        fc = rng.choice([None, None] + [x for x in COLORCODES if x[1]])
        c["look"] = {"lc": lc[0], "lw": rng.choice([0, 1, 2, 3, 6, 17, 300]), "fc": [fc[0]] if fc else [], "rd": rng.choice([0, 1, 5, 15, 16, 40, 200, 201, 999]),
                     "fs": rng.choice([0, 1, 8, 14, 14, 15, 33, 100, 1, 1000, 1001, 1014, 2014])}
        c["want"] = {"lc": lc[1], "fc": [fc[1]] if fc else []}
        if plan:
            c["look"]["fs"] = plan[j]["fs"]
            c["clip"] = plan[j]["clip"] if c["c"] == "rect" else []
        elif c["c"] == "rect" and clips and rng.random() < 0.6:
            c["clip"] = [rng.randrange(clips)]
        if c["c"] == "clip":
            c["rd"] = rng.choice([0, 1, 5, 15, 16, 40, 200])
            c["prop"] = []
            clips += 1
        if c["c"] in ("text", "arrow"):
            c["text"] = safe_text(rng)
            if rng.random() < 0.1:
                c["text"] = ""
            if bmp:
                c["text"] = "".join(x for x in c["text"] if ord(x) < 0x10000)
        if c["c"] == "arrow":
            c["path"] = [[co(), co(), co(), co()] for _ in range(rng.choice([2, 2, 3, 4, 7, 12, 20] if rng.random() < 0.97 else [33, 65, 130]))]
            c["dash"], c["hs"], c["he"] = rng.random() < 0.4, rng.random() < 0.5, rng.random() < 0.5
            if plan:
                c["hs"], c["he"] = plan[j]["hs"], plan[j]["he"]
        out.append(c)
    return out


def svg_expect(case):
    """Brings the script and the document it gave to one unit: thousandths."""
    import svgxml
    import xml.etree.ElementTree as ET
    if case["outcome"] != "ok":
        return case
    case["out"]["doc"] = svgxml.read(case["out"].pop("svg"))
    for c in case["calls"]:
        q = c.pop("q")
        for k in "xywh":
            c[k] = (c[k] * 1000 + q // 2) // q
        c["path"] = [[(v * 1000 + q // 2) // q for v in p] for p in c["path"]]
        c["look"].update(c.pop("want"))
        p = c.pop("prop")
        at = ET.fromstring("<g %s/>" % p[0]).attrib if p else {}
        c["props"] = [[k, v] for k, v in sorted(at.items())]
    return case


def svg_read(case):
    import svgxml
    if case["outcome"] == "ok":
        case["out"]["doc"] = svgxml.read(case["out"].pop("svg"))
    return case


def relabelled(rng, case, bmp=False):
    """The same graph with wild labels."""
    pool = [t for t in PLAINTEXT if not bmp or all(ord(c) < 0x10000 for c in t)]

    def t():
        if rng.random() < 0.002:
            return "z" * 3000
        return rng.choice(pool) if rng.random() < 0.8 else safe_text(rng) if not bmp else "l1\nlonger line"
    def rec(d):
        if isinstance(d, list):
            return [rec(x) for x in d]
        return dict(d, s=t())
    for n in case["graph"]["nodes"]:
        n["text"], n["rec"] = t(), rec(n["rec"])
    for e in case["graph"]["edges"]:
        e["prop"] = ["data-p=\"%s\"" % "".join(p.split("\"")) for p in e["prop"]]
        if e["text"]:
            e["text"] = t()
    return case


def program_text(rng):
    """A NUL character is no program text."""
    return safe_text(rng).replace("\x00", "")


def labelled_program(rng):
    """Programs whose labels are wild texts."""
    k = rng.randint(1, 6)
    out = ["digraph \"g\" {"] + (["rankdir=LR;"] if rng.random() < 0.4 else [])
    for j in range(k):
        lst = [("shape", rng.choice(["box", "circle", "doublecircle", "record", "Mrecord"])), ("label", program_text(rng))]
        if lst[0][1] in ("record", "Mrecord") and rng.random() < 0.7:
            lst[1] = ("label", rng.choice(["%s|%s", "{%s|<p>%s}", "%s|{%s|x}"]) % (program_text(rng), program_text(rng)))
        out.append("%s %s;" % (quote("n%d" % j) if rng.random() < 0.7 else quote(PLAINTEXT[j]), dot_list(lst)))
    for _ in range(rng.randint(0, 2 * k)):
        out.append("n%d -> n%d %s;" % (rng.randrange(k), rng.randrange(k), dot_list([("label", program_text(rng))] if rng.random() < 0.6 else [])))
    return " ".join(out) + " }"


def crowded(rng):
    """Very many clip regions, fonts or arrows in one picture."""
    n, f = rng.randint(66, 270), rng.randrange(4)
    if f == 0:
        b = ["n%d [shape=Mrecord, label=%s];" % (j, rng.choice(["a", "\"x|y\"", "\"{<p> q|r}\""])) for j in range(n)]
    elif f == 1:
        b = ["n%d [fontsize=%d];" % (j, 1 + j) for j in range(n)]
    elif f == 2:
        n //= 2
        b = ["a -> b [label=%s, fontsize=%d, style=%s];" % (rng.choice(["x", "\"\"", "yy"]), 1 + j, rng.choice(["dashed", "solid"])) for j in range(n)]
    else:
        n //= 3
        b = ["n%d [shape=Mrecord, fontsize=%d]; n%d -> n%d [penwidth=%d];" % (j, 8 + j, j, rng.randint(0, j), j) for j in range(n)]
    return "digraph { " + " ".join(b) + " }"


def many_looks(rng):
    """One program with many fonts, attributes, defaults and clip regions, whose
    tables hold many keys at once."""
    out = ["digraph \"g\" {"]
    lists = [("color", COLORS), ("fontsize", [str(x) for x in range(6, 40)]), ("fillcolor", COLORS), ("width", "12345"),
             ("shape", ["box", "circle", "record", "Mrecord", "doublecircle"]), ("style", ["dashed", "dotted", "filled"]),
             ("label", ["x", "y|z", "{a|b}"]), ("penwidth", "123")]

    def al(n):
        ks = rng.sample(lists, n)
        return dot_list([(k, rng.choice(v)) for k, v in ks + rng.sample(lists, rng.randint(0, 2))])
    for who in ("node", "edge", "graph"):
        out.append("%s %s;" % (who, al(rng.randint(3, 7))))
    for j in range(rng.randint(2, 12)):
        out.append("n%d %s;" % (j, al(rng.randint(0, 6))))
        if rng.random() < 0.7:
            out.append("n%d -> n%d %s;" % (j, rng.randint(0, j), al(rng.randint(0, 5))))
        if rng.random() < 0.2:
            out.append("subgraph { %s %s; m%d -> n%d }" % (rng.choice(["node", "edge"]), al(4), j, j))
    return " ".join(out) + " }"


def environment(rng):
    """Values of variables that have nothing to do with a picture."""
    e = {"LINES": ["24", "1", "500"], "COLUMNS": ["80", "20", "132"], "LANG": ["C", "de_DE.UTF-8", "tr_TR.UTF-8"],
         "LC_ALL": ["C", "fr_FR.UTF-8", ""], "LC_NUMERIC": ["de_DE.UTF-8", "C"], "TZ": ["UTC", "Asia/Tokyo", "America/New_York"],
         "HOME": ["/", "/nonexistent"], "TERM": ["dumb", "xterm-256color", ""], "USER": ["nobody", "a"], "NO_COLOR": ["1", ""],
         "DEBUG": ["1", "0"], "RUST_LOG": ["trace", "off"], "RUST_BACKTRACE": ["0", "1", "full"], "SOURCE_DATE_EPOCH": ["0", "1700000000"],
         "TMPDIR": ["/nonexistent", "/tmp"], "DPI": ["72", "300"], "DISPLAY": [":0", ""], "SEED": ["1", "2"], "HOSTNAME": ["x", "yy"],
         "PWD": ["/", "/x"], "FONTCONFIG_PATH": ["/x"], "RAYON_NUM_THREADS": ["1", "7"]}
    return {k: rng.choice(v) for k, v in e.items() if rng.random() < 0.7}


# ------------------------------------------------------------------ geometry
def geom_segments(gen):
    """All second end points for each box and first end point."""
    qs = [{"q": "segrect", "a": g["p"] + [x, y] + g["b"], "s": 1} for g in gen for x in range(g["g"] + 1) for y in range(g["g"] + 1)]
    return [{"op": "geom", "qs": qs[j:j + 400]} for j in range(0, len(qs), 400)]


def geom_random(rng, n):
    def co(m=30):
        return rng.choice([0, rng.randint(-3, 3), rng.randint(-m, m)])

    def box(m=30):
        x, y = co(m), co(m)
        return [x, y, x + rng.choice([0, 1, 5, 20]), y + rng.choice([0, 1, 5, 20])]

    def query():
        k = rng.choice(["segrect", "boxes", "range", "median", "square", "pad", "arith", "rot", "dist", "lerp", "vec", "box", "box",
                        "circle", "circle", "pass", "pass"])
        p = lambda m=30: [co(m), co(m)]
        if k == "segrect":
            m = rng.choice([5, 30, 3000])
            a = p(m) + p(m) + box(m)
            if rng.random() < 0.3:
                a[2] = a[0]
            if rng.random() < 0.3:
                a[3] = a[1]
        elif k == "boxes":
            a = box(rng.choice([5, 30])) + box(rng.choice([5, 30]))
        elif k == "range":
            a = p() + [co()]
        elif k == "median":
            a = [rng.choice([rng.randint(0, 4), rng.randint(-100, 10000)]) for _ in range(rng.randint(1, 12))]
        elif k == "square":
            a = [rng.randint(0, 500), rng.randint(0, 500)]
        elif k == "pad":
            a = [rng.randint(0, 500), rng.randint(0, 500), rng.randint(-20, 60)]
        elif k in ("arith", "rot"):
            a = p(500) + p(500) + [rng.randint(-4, 7)]
        elif k == "dist":
            a = p() + p()
        elif k == "lerp":
            a = p(500) + p(500) + [rng.randint(0, 4)]
        elif k == "vec":
            a = p() + p() + [rng.randint(1, 30)]
        elif k in ("box", "circle"):
            a = p() + [rng.randint(1, 60), rng.randint(1, 60)] + p(90) + [rng.randint(1, 30)]
            if k == "box" and rng.random() < 0.3:
                a[4] = a[0]
            if k == "circle":
                a[2], a[3] = max(4, a[2]), max(4, a[3])
                a[4], a[5] = a[4] % 31, a[5] % 31
        else:
            c = p(20)
            a = [10, 10] + c + [rng.choice([c[0], co(20)]), rng.choice([c[1], co(20)]), rng.choice([c[0], co(20)]), rng.choice([c[1], co(20)]),
                                rng.randint(10, 30)]
        s = rng.choice([1, 1, 1, 2, 4, 16, 256, 0.25])
        if k == "pass":
            s = min(4, s)
            a[8] = rng.randint(int(10 * max(1, s)), 45)
        return {"q": k, "a": a, "s": s}
    return [{"op": "geom", "qs": [query() for _ in range(60)]} for _ in range(n)]


def pos_random(rng, n):
    out = []
    for _ in range(n):
        m = rng.choice([5, 100, 20000])

        def co():
            return rng.choice([0, rng.randint(-m, m), rng.randint(0, m)])
        size = [rng.randint(1, 300), rng.randint(1, 300)]
        init = {"m": [co(), co()], "s": list(size), "c": [rng.randint(-size[0] + 1, size[0] - 1) if rng.random() < 0.4 else 0,
                                                         rng.randint(-size[1] + 1, size[1] - 1) if rng.random() < 0.4 else 0],
                "h": rng.choice([[0, 0], [20, 20], [rng.randint(0, 50), rng.randint(0, 50)]])}
        ops = []
        for _ in range(rng.randint(1, 25)):
            o = rng.choice(["move", "trans", "setx", "sety", "top", "left", "right", "alignx", "size", "center", "flip", "inr"])
            if o in ("move", "trans"):
                a = [co(), co()]
            elif o == "size":
                a = size = rng.choice([[rng.randint(1, 300), rng.randint(1, 300)], size[::-1], [size[0], rng.randint(1, 300)], [rng.randint(1, 300), size[1]], size])
            elif o == "center":
                a = [rng.randint(-size[0] + 1, size[0] - 1), rng.randint(-size[1] + 1, size[1] - 1)]
            elif o == "flip":
                a, size = [], size[::-1]
            elif o == "alignx":
                a = [co(), rng.randint(0, 1)]
            elif o == "inr":
                lo = co()
                a = [lo, lo + rng.randint(0, 2 * m), rng.randint(0, 1)]
            else:
                a = [co()]
            ops.append({"o": o, "a": list(a)})
        # Powers of two, so that the sums are exact; with a tenth they are not.
        unit = rng.choice([1, 1, 2.0 ** -9, 2.0 ** -6, 0.125, 0.5, 4, 64, 0.1])
        if unit == 0.1:
            ops = [o for o in ops if o["o"] != "inr"]
        out.append({"op": "pos", "init": init, "ops": ops, "unit": unit})
    return out
