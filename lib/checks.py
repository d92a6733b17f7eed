"""The legs of each check: which model, which generated behaviours, which
recorded traces. Input generation only; the TLA+ specifications decide."""
import re

import gen, vlib

CHECKS, NEEDS_CLI, NEEDS_PLAIN, NOTES = {}, set(), {"C01", "C22"}, {}


def check(pid, cli=False):
    def reg(f):
        CHECKS[pid] = f
        if cli:
            NEEDS_CLI.add(pid)
        return f
    return reg


@check("C11")
def c11(c):
    c.model("MC_ScopedMap")
    seqs = c.generate("Gen_ScopedMap", limit=c.n(3000, None))
    c.trace("T_ScopedMap", [{"op": "smap", "keys": ["a", "b"], "ops": s} for s in seqs], name="generated")
    c.trace("T_ScopedMap", gen.smap_random(c.rng, c.n(300, 3000)), name="random")


@check("C10")
def c10(c):
    c.model("MC_RankedDag")
    seqs = c.generate("Gen_RankedDag", limit=c.n(4000, None))
    c.trace("T_RankedDag", [{"op": "dag", "ops": s} for s in seqs], name="generated")
    c.trace("T_RankedDag", gen.dag_random(c.rng, c.n(250, 2500)), name="random")


# ------------------------------------------------------------ the text front end

@check("C04")
def c04(c):
    c.model("MC_DotLex")
    texts = c.generate("Gen_DotLex", limit=c.n(12000, None))
    texts += c.generate("Gen_DotLex", "Gen_DotLexStrings", limit=c.n(9000, None))
    texts += c.generate("Gen_DotLex", "Gen_DotLexComments") + c.generate("Gen_DotLex", "Gen_DotLexNumbers")
    c.trace("T_DotLex", [{"op": "lex", "text": t} for t in texts], name="generated")
    c.trace("T_DotLex", [{"op": "lex", "text": gen.chars(t)} for t in gen.lex_places() + gen.lex_words()], name="places")
    c.trace("T_DotLex", gen.lex_random(c.rng, c.n(4000, 40000)), name="random")
    progs = [gen.dot_join(c.rng, gen.dot_program(c.rng)) for _ in range(c.n(500, 5000))]
    progs += [gen.char_mutate(c.rng, p) for p in progs]
    c.trace("T_DotLex", [{"op": "lex", "text": gen.chars(p)} for p in progs], name="programs")


def fault_tokens(c, n):
    """Every form as it should be, and some of its faults."""
    x = c.generate("Gen_DotFault")
    right, wrong = [y["toks"] for y in x if y["right"]], [y["toks"] for y in x if not y["right"]]
    return right + c.rng.sample(wrong, min(n, len(wrong)))


@check("C03")
def c03(c):
    c.model("MC_DotParse")
    toks = c.generate("Gen_DotParse", limit=c.n(12000, None))
    cases = [" ".join(t) for t in toks]
    # The same token strings closed properly: most of them become programs.
    cases += [x + " }" for x in cases[: c.n(6000, 40000)]]
    c.trace("T_DotParse", [{"op": "parse", "text": gen.chars(x)} for x in cases], name="generated")
    faults = fault_tokens(c, c.n(14000, 90000))
    c.trace("T_DotParse", [{"op": "parse", "text": gen.chars(gen.dot_join(c.rng, t))} for t in faults], name="faults")
    progs = []
    for _ in range(c.n(1500, 15000)):
        t = gen.dot_program(c.rng, size=c.rng.choice([3, 8, 16]))
        progs.append(gen.dot_join(c.rng, t))
        progs.append(gen.dot_join(c.rng, gen.dot_mutate(c.rng, t)))
        if c.rng.random() < 0.3:
            progs.append(gen.char_mutate(c.rng, progs[-2]))
    for _ in range(c.n(120, 1500)):
        t = gen.dot_large(c.rng)
        progs.append(gen.dot_join(c.rng, t))
        progs.append(gen.dot_join(c.rng, gen.dot_mutate(c.rng, t)))
    c.trace("T_DotParse", [{"op": "parse", "text": gen.chars(x)} for x in progs], name="random")


@check("C01")
def c01(c):
    c.model("MC_DotLex")
    c.model("MC_DotParse")
    texts = c.generate("Gen_DotLex", limit=c.n(6000, None))
    texts += c.generate("Gen_DotLex", "Gen_DotLexStrings", limit=c.n(1500, None)) + c.generate("Gen_DotLex", "Gen_DotLexComments", limit=c.n(1500, None))
    toks = c.generate("Gen_DotParse", limit=c.n(6000, None))
    cases = ["".join(t) for t in texts] + ["digraph{" + "".join(t) for t in texts[:: c.n(2, 3)]]
    cases += [" ".join(t) for t in toks]
    cases += [" ".join(t) for t in fault_tokens(c, c.n(4000, 90000))]
    r = c.rng
    bits = gen.LEXBITS + ["\0", "\x01", "\U0001f600", "\u00b2", "\ufeff"]
    for _ in range(c.n(3000, 30000)):
        p = gen.dot_join(r, gen.dot_program(r, size=8))
        cases.append(p[: r.randint(0, len(p))])
        cases.append(gen.char_mutate(r, p))
        cases.append(r.choice(["", "digraph{", "graph G { x;", "digraph{a[", "digraph{a->", "digraph\n{\n x \n"]) + "".join(r.choice(bits) for _ in range(r.randint(0, 30))))
    for x in gen.lex_places() + gen.lex_words():
        if c.quick and r.random() < 0.5:
            continue
        cases.append(r.choice(["digraph{%s}", "graph { a [b=%s] }", "digraph { a -> %s", "digraph {\n x; %s\n }", "strict graph %s {}", "digraph { x = %s; y }", "digraph { a:%s }"]) % x)
    cases += ["", " ", "\0", "digraph { a [", "digraph { a [b=", "digraph { \"", "//", "/*", "/", "digraph{}//"]
    # TLC needs no text here, only the answers.
    short = lambda x: dict(x, text="") if len(x["text"]) > 2000 else x
    as_case = lambda x: {"op": "parse", "report": True, "text": x}
    c.trace("T_Answer", [as_case(x) for x in cases], name="answers", timeout=10.0, post=short)
    # Large texts must be answered promptly as well, in a build without
    # optimizations too.
    n = c.n(60000, 200000)
    large = [as_case(x) for x in large_texts(n)]
    c.trace("T_Answer", large, name="large", timeout=20.0, post=short)
    c.trace("T_Answer", [as_case(x) for x in large_texts(n)], name="plain", timeout=60.0, post=short, lv=vlib.PLAIN)


def large_texts(n):
    """Much of each thing that a text may have, in texts that parse and in
    texts that stop early."""
    many = {"statements": "a -> b;" * n, "names": "a " * n, "semicolons": "a;" * n, "defaults": "node [k=v]\n" * n, "assignments": "k=v;" * n,
            "scopes": "{}" * n, "subgraphs": "subgraph s {a} " * n, "attributes": "a [" + "k=v," * n + "]", "spaced": "a [" + "k=v " * n + "]",
            "chain": "a " + "-> a " * n, "ports": "a:p " + "-- a:q " * n, "comments": "// c\n" * n, "returns": "//\r" * n, "blocks": "/* c */ " * n,
            "packed": "/**/" * n, "block": "/*" + "* /" * n + "*/", "line": "//" + "x" * n, "spaces": " " * n, "lines": "\n" * n, "tabs": "\t\r\n" * n,
            "mixed": " // c\n /* d */ " * n, "string": '"' + "x" * n + '"', "escapes": '"' + "\\n\\\"" * n + '"', "lined": '"' + "x\n" * n + '"',
            "strings": '"x" ' * n, "name": "a" * n, "number": "1" * n, "negatives": "-1 " * n, "after": "a [k=v]" + "// c\n" * n}
    res = []
    for k in sorted(many):
        x = many[k]
        res += ["digraph {" + x + "}", "digraph {" + x, x, "digraph {" + x + "? }", "digraph {}" + x]
    res += ["/" + "*" * n, '"' + "x" * n, '"' + "\\" * n, "digraph {" + "{" * 400 + "}" * 400 + "}", "digraph {" + "subgraph x {" * 480, "-" * n, "[" * n, "}" * n,
            "digraph { a " + "-> " * n, "digraph { a" + ":a" * n, "digraph { a [" + "k" * n + "=" + "v" * n + "] }", "/* " + "c " * n, "strict " * n, "=" * n]
    return res


def text_cases(op, texts, **kw):
    return [dict({"op": op, "text": gen.chars(t)}, **kw) for t in texts]


@check("C08")
def c08(c):
    c.model("MC_Record")
    labels = c.generate("Gen_Record", limit=c.n(15000, None))
    c.trace("T_Record", [{"op": "record", "text": t} for t in labels], name="generated")
    r = c.rng
    bits = ["a", "b", "port", " ", "  ", "|", "|", "{", "}", "<", ">", "\\", "\\|", "\n", "\t", "\r", "\u00e9", "\u4e2d", "\f", "<p>", "<q> ", "{|}", "{a|b}",
            "\u00a0", "\u3000", "\u2003", "\x0b", "\u0085", "\u200b", "< r >", "><", "<<s>", "<>", "a b", "'", "\"", "&", "lower\\n"]
    rnd = ["".join(r.choice(bits) for _ in range(r.randint(1, 30))) for _ in range(c.n(6000, 60000))]
    rnd += ["{" * n + "}" * m for n in range(0, 40, 3) for m in range(0, 40, 3)]
    rnd += [gen.record_large(r) for _ in range(c.n(250, 2500))]
    c.trace("T_Record", text_cases("record", rnd), name="random")


@check("C05")
def c05(c):
    c.model("MC_Builder")
    hist = c.generate("Gen_Builder", limit=c.n(4000, None))
    c.trace("T_Builder", text_cases("build", [gen.history_program(c.rng, h) for h in hist]), cfg="T_BuilderShape", name="generated")
    progs = []
    for j in range(c.n(3500, 30000)):
        t = gen.dot_program(c.rng, size=c.rng.choice([4, 10, 20]) if j % 70 else 90, wide=j % 70 == 0)
        progs.append(gen.dot_join(c.rng, t))
    progs += [gen.dot_join(c.rng, gen.dot_large(c.rng)) for _ in range(c.n(300, 3000))]
    c.trace("T_Builder", text_cases("build", progs), cfg="T_BuilderShape", name="random")


@check("C06")
def c06(c):
    c.model("MC_Builder", cfg=None if c.quick else "MC_BuilderDeep")
    hist = c.generate("Gen_Builder", limit=c.n(6000, None))
    progs = []
    for h in hist:
        key, vals = c.rng.choice(gen.PROBES["node"])
        progs.append(gen.history_program(c.rng, h, key, vals))
    c.trace("T_Builder", text_cases("build", progs), name="generated")
    c.trace("T_Builder", text_cases("build", [gen.scoped_program(c.rng) for _ in range(c.n(4000, 40000))]
                                         + [gen.dot_join(c.rng, gen.dot_large(c.rng)) for _ in range(c.n(200, 2000))]), name="random")


@check("C07")
def c07(c):
    looks = c.generate("Gen_Look")
    if c.quick:
        looks = [x for x in looks if c.rng.random() < 0.5]
    progs = [gen.look_program(x["who"], x["list"]) for x in looks]
    c.trace("T_Builder", text_cases("build", progs), name="generated")
    progs = []
    for name in gen.css_names():
        for who in ("node", "edge"):
            progs.append(gen.look_program(who, [("color", name), ("fillcolor", name.upper() if who == "edge" else name)]))
    near = gen.nearly_css(c.rng)
    for j, name in enumerate(near):
        if j % c.n(2, 1) == 0:
            progs.append(gen.look_program("node", [("color", name), ("fillcolor", near[-1 - j])]))
    progs += [gen.wild_look(c.rng) for _ in range(c.n(4000, 40000))]
    c.trace("T_Builder", text_cases("build", progs), name="values")


# ------------------------------------------------------------- the lowering

def lower_cases(c, upto, quick, deep):
    """Every small graph, and random larger ones."""
    r = c.rng
    small = c.generate("Gen_Lowering", limit=c.n(quick, deep))
    a = [{"op": "lower", "upto": upto, "noopt": r.random() < 0.4,
          "graph": gen.edge_list_graph(r, 3, es, r.choice(["TB", "LR"]))} for es in small]
    b = [{"op": "lower", "upto": upto, "noopt": r.random() < 0.4, "graph": gen.graph_random(r, r.choice([4, 7, 12]), True)}
         for _ in range(c.n(1200, 12000))]
    b += [{"op": "lower", "upto": upto, "noopt": r.random() < 0.4, "graph": gen.big_graph(r, True)} for _ in range(c.n(16, 150))]
    b += [{"op": "lower", "upto": upto, "noopt": r.random() < 0.4, "graph": gen.tall_graph(r)} for _ in range(c.n(8, 80))]
    b += [{"op": "lower", "upto": upto, "noopt": r.random() < 0.4, "graph": gen.returns(r)} for _ in range(c.n(14, 150))]
    return a, b


@check("C12")
def c12(c):
    c.model("MC_Lowering")
    if not c.quick:
        c.model("MC_Lowering", cfg="MC_LoweringDeep")
    a, b = lower_cases(c, "valid", 6000, 111000)
    c.trace("T_Lowering", a, cfg="T_LoweringC12", name="generated")
    c.trace("T_Lowering", b, cfg="T_LoweringC12", name="random")


@check("C13")
def c13(c):
    c.model("MC_Lowering", cfg=None if c.quick else "MC_LoweringDeep")
    a, b = lower_cases(c, "final", 2500, 50000)
    c.trace("T_Lowering", a, cfg="T_LoweringC13", name="generated")
    c.trace("T_Lowering", b, cfg="T_LoweringC13", name="random")


@check("C14")
def c14(c):
    c.model("MC_Lowering", cfg=None if c.quick else "MC_LoweringDeep")
    r = c.rng
    cases = []
    for cfg, lim in (("Gen_Dags4", None), ("Gen_Dags5", None), ("Gen_Dags6", c.n(3000, None))):
        for g in c.generate("Gen_Dags", cfg=cfg, limit=lim):
            cases.append({"op": "sink", "n": g["n"], "edges": gen.relabel(r, g["n"], g["edges"]),
                          "steps": [r.randrange(g["n"]) for _ in range(3)]})
    c.trace("T_Sink", cases, name="generated")
    cases = []
    for j in range(c.n(800, 8000)):
        n = r.randint(2, 14) if j % 50 else r.randint(25, 40)
        if j % 50 == 25:
            n, es = gen.two_chains(r)
            cases.append({"op": "sink", "n": n, "edges": es if r.random() < 0.5 else gen.relabel(r, n, es), "steps": [r.randrange(n) for _ in range(8)]})
            continue
        if j % 50 in (5, 35):
            n, es = gen.hub(r)
            cases.append({"op": "sink", "n": n, "edges": gen.relabel(r, n, es), "steps": [r.randrange(n) for _ in range(8)]})
            continue
        es = [e[:2] for e in gen.edges_random(r, n, r.randint(0, 3 * n), 0, 0, 0, 0.3)]
        cases.append({"op": "sink", "n": n, "edges": gen.relabel(r, n, es), "steps": [r.randrange(n) for _ in range(8)]})
    c.trace("T_Sink", cases, name="random")
    a, b = lower_cases(c, "long", 1500, 30000)
    c.trace("T_Lowering", a + b, cfg="T_LoweringC14", name="pipeline")


@check("C15")
def c15(c):
    for m in ("MC_Cross", "MC_CrossWide") + (() if c.quick else ("MC_CrossDeep",)):
        c.model("MC_Cross", cfg=m)
    r = c.rng
    cases = []
    for cfg, lim in (("Gen_Dags5", None), ("Gen_Dags6", c.n(5000, None))):
        for g in c.generate("Gen_Dags", cfg=cfg, limit=lim):
            cases.append({"op": "cross", "n": g["n"], "edges": gen.relabel(r, g["n"], g["edges"]),
                          "rows": [r.randrange(12) for _ in range(6)], "runs": 2})
    c.trace("T_Cross", cases, name="generated")
    cases = []
    for j in range(c.n(1500, 15000)):
        n, es = gen.layered(r, j % 20 == 3, j % 75 == 9)
        cases.append({"op": "cross", "n": n, "edges": gen.relabel(r, n, es), "rows": [r.randrange(20) for _ in range(6)], "runs": 3})
    for j in range(c.n(24, 200)):
        # More levels, and more crossings, than any other graph here.
        n, es = gen.layered(r, huge=1 + j % 2)
        cases.append({"op": "cross", "n": n, "edges": gen.relabel(r, n, es), "rows": [r.randrange(20) for _ in range(6)], "runs": 1})
    c.trace("T_Cross", cases, name="layered")
    cases = []
    for j in range(c.n(1000, 10000)):
        n, es = gen.layered(r, j % 20 == 3)
        es = gen.relabel(r, n, es + ([[a, b] for a, b in zip(es[0], es[-1])] if r.random() < 0.3 else []))
        es = [e for e in es if e[0] != e[1]]
        cases.append({"op": "crosslow", "n": n, "edges": es, "runs": 1,
                      "graph": gen.edge_list_graph(r, n, [(a, b, "") for a, b in es], r.choice(["TB", "LR"]))})
    c.trace("T_Cross", cases, name="lowered")


# ------------------------------------------------------------- the whole run

@check("C02")
def c02(c):
    c.model("MC_Pipeline")
    c.model("MC_DotParse")
    r = c.rng

    def cases(texts, program):
        return [dict(x, program=program) for x in text_cases("pipeline", texts)]
    toks = c.generate("Gen_DotParse", limit=c.n(3000, None))
    c.trace("T_Pipeline", cases([" ".join(t) + " }" for t in toks], False), name="generated", timeout=60)
    small = c.generate("Gen_Lowering", limit=c.n(2000, 60000))
    c.trace("T_Pipeline", cases([gen.graph_program(3, e) for e in small], True), name="graphs", timeout=60)
    progs = gen.families(r, not c.quick)
    progs += [gen.dot_join(r, gen.dot_program(r, size=r.choice([4, 12, 25]))) for _ in range(c.n(800, 10000))]
    progs += [gen.wild_program(r) for _ in range(c.n(1200, 15000))]
    progs += [gen.scoped_program(r) for _ in range(c.n(300, 3000))]
    # Names, labels and values of thousands of characters, and rows as wide as they make them.
    for j in range(c.n(24, 200)):
        t = r.choice(["x" * 5000, "two " * 1500, "a\\n" * 400, "\u4e2d" * 3000, "y" * 400])
        k = r.choice([2, 9, 40])
        progs.append("digraph { %s %s %s %s }" % (
            r.choice(["", "rankdir=LR;"]), r.choice(["node [shape=box]", "node [shape=record]", "edge [label=\"%s\"]" % t, ""]),
            " ".join("r -> \"%s%d\" [%s=\"%s\"];" % (t if r.random() < 0.5 else "n", i, r.choice(["label", "tooltip", "style"]), t) for i in range(k)),
            r.choice(["", "{ n1 [label=\"%s\"] }" % t])))
    r.shuffle(progs)
    c.trace("T_Pipeline", cases(progs, True), name="programs", timeout=60)


# ----------------------------------------------------- layouts and drawings

def layout_graphs(c, n, mx=(3, 6, 11), square=False, giant=False, **kw):
    r = c.rng
    out = []
    for j in range(n):
        g = gen.layout_graph(r, r.choice(mx), square, big=j % 50 == 25, giant=giant)
        out.append(dict({"op": "layout", "graph": g, "noopt": r.random() < 0.3, "nolayout": r.random() < 0.15,
                         "mirror": False, "roomy": False}, **kw))
    return out


def layout_programs(c, n, **kw):
    r = c.rng
    return [dict({"op": "layout", "text": gen.drawing_program(r, j % 100 == 50), "noopt": r.random() < 0.3, "nolayout": r.random() < 0.15,
                  "mirror": False, "roomy": True}, **kw) for j in range(n)]


def layout_small(c, n, **kw):
    """The graphs of Gen_Layout: every pair of shapes under every pair of edges."""
    r = c.rng
    return [dict({"op": "layout", "graph": gen.small_layout(r, g), "noopt": r.random() < 0.3, "nolayout": r.random() < 0.15,
                  "mirror": False, "roomy": False}, **kw) for g in c.generate("Gen_Layout", limit=n)]


@check("C16")
def c16(c):
    c.model("MC_Schedule", cfg=None if c.quick else "MC_ScheduleDeep")
    c.model("MC_Place")
    c.trace("T_Layout", layout_small(c, c.n(1500, None)), cfg="T_LayoutC16", name="generated")
    # Some of the graphs have nodes of thousands of pixels.
    c.trace("T_Layout", layout_graphs(c, c.n(1500, 15000)) + layout_graphs(c, c.n(150, 1500), giant=True), cfg="T_LayoutC16", name="graphs")
    c.trace("T_Layout", layout_programs(c, c.n(1000, 10000)), cfg="T_LayoutC16", name="programs")


@check("C17")
def c17(c):
    c.model("MC_Schedule")
    small = [x for x in layout_small(c, c.n(1500, None), mirror=True)]
    for x in small:
        for e in x["graph"]["edges"]:
            # A label of several lines is only as wide as it is high if square.
            e["text"] = e["text"] and c.rng.choice(["x", "ab\ncd"])
    c.trace("T_Layout", small, cfg="T_LayoutC17", name="generated")
    c.trace("T_Layout", layout_graphs(c, c.n(1500, 15000), square=True, mirror=True) + layout_graphs(c, c.n(100, 1000), square=True, giant=True, mirror=True), cfg="T_LayoutC17", name="mirrored")
    c.trace("T_Layout", layout_programs(c, c.n(1000, 10000)), cfg="T_LayoutC17", name="programs")


@check("C18")
def c18(c):
    c.model("MC_Drawing")
    c.trace("T_Layout", layout_small(c, c.n(1500, None)), cfg="T_LayoutC18", name="generated")
    c.trace("T_Layout", layout_graphs(c, c.n(1500, 15000)), cfg="T_LayoutC18", name="graphs")
    c.trace("T_Layout", layout_programs(c, c.n(1000, 10000)), cfg="T_LayoutC18", name="programs")


@check("C19")
def c19(c):
    c.model("MC_Drawing")
    c.trace("T_Layout", layout_small(c, c.n(1500, None)), cfg="T_LayoutC19", name="generated")
    c.trace("T_Layout", layout_graphs(c, c.n(1500, 15000)), cfg="T_LayoutC19", name="graphs")
    c.trace("T_Layout", layout_programs(c, c.n(1000, 10000)), cfg="T_LayoutC19", name="programs")


@check("C28")
def c28(c):
    c.model("MC_Drawing")
    c.trace("T_Layout", layout_small(c, c.n(1500, None), debug=True, plain=True), cfg="T_LayoutC28", name="generated")
    c.trace("T_Layout", layout_graphs(c, c.n(1200, 15000), debug=True, plain=True), cfg="T_LayoutC28", name="graphs")
    c.trace("T_Layout", layout_programs(c, c.n(1000, 10000), debug=True, plain=True), cfg="T_LayoutC28", name="programs")


@check("C09")
def c09(c):
    c.model("MC_RecordBox", cfg=None if c.quick else "MC_RecordBoxDeep")
    recs = c.generate("Gen_RecTree", limit=c.n(1200, 20000)) + [gen.record_label(c.rng, c.rng.choice([1, 2, 2, 3])) for _ in range(c.n(600, 8000))]
    c.trace("T_Layout", [{"op": "layout", "text": gen.record_program(c.rng, t), "noopt": c.rng.random() < 0.3, "nolayout": c.rng.random() < 0.15,
                          "mirror": False, "roomy": True} for t in recs], cfg="T_LayoutC09", name="generated")
    c.trace("T_Layout", layout_graphs(c, c.n(1200, 15000)), cfg="T_LayoutC09", name="graphs")
    c.trace("T_Layout", layout_programs(c, c.n(1500, 10000)), cfg="T_LayoutC09", name="programs")


# ----------------------------------------------------------- the SVG backend

def scripts(c, n, sizes=(1, 2, 3, 6, 12, 30), **kw):
    return [{"op": "svgcalls", "calls": gen.svg_script(c.rng, c.rng.choice(sizes) if j % 100 != 50 else c.rng.randint(150, 300), arrows=j % 200 == 50, **kw)} for j in range(n)]


@check("C26")
def c26(c):
    c.model("MC_Svg", cfg=None if c.quick else "MC_SvgDeep")
    hist = c.generate("Gen_Svg", limit=c.n(3000, None))
    c.trace("T_SvgCalls", [{"op": "svgcalls", "calls": gen.svg_script(c.rng, len(h), plan=h)} for h in hist], name="generated",
            post=gen.svg_expect)
    c.trace("T_SvgCalls", scripts(c, c.n(2500, 25000)), name="scripts", post=gen.svg_expect)


def wild_layouts(c, n, bmp=False, **kw):
    return [gen.relabelled(c.rng, x, bmp) for x in layout_graphs(c, n, mx=(2, 5), svg=True, **kw)]


@check("C20")
def c20(c):
    c.model("MC_Svg", cfg=None if c.quick else "MC_SvgDeep")
    r = c.rng
    c.trace("T_Svg", wild_layouts(c, c.n(1200, 12000)), cfg="T_SvgC20", name="graphs", post=gen.svg_read)
    progs = [{"op": "layout", "text": gen.labelled_program(r), "noopt": False, "nolayout": False, "svg": True, "debug": r.random() < 0.2}
             for _ in range(c.n(1200, 12000))]
    progs += [{"op": "layout", "text": gen.crowded(r), "noopt": True, "nolayout": True, "svg": True, "debug": r.random() < 0.2} for _ in range(c.n(8, 40))]
    c.trace("T_Svg", progs, cfg="T_SvgC20", name="programs", post=gen.svg_read)
    c.trace("T_Svg", scripts(c, c.n(1000, 10000)), cfg="T_SvgC20", name="scripts", post=gen.svg_expect)


@check("C21")
def c21(c):
    c.model("MC_Svg", cfg=None if c.quick else "MC_SvgDeep")
    r = c.rng
    c.trace("T_Svg", wild_layouts(c, c.n(1000, 12000), bmp=True), cfg="T_SvgC21", name="graphs", post=gen.svg_read)
    c.trace("T_Svg", layout_programs(c, c.n(1000, 10000), svg=True), cfg="T_SvgC21", name="programs", post=gen.svg_read)
    c.trace("T_Svg", scripts(c, c.n(1500, 15000), bmp=True), cfg="T_SvgC21", name="scripts", post=gen.svg_expect)


@check("C22")
def c22(c):
    c.model("MC_Repeat")
    r = c.rng
    cases = []
    for _ in range(c.n(1200, 8000)):
        for p in (gen.drawing_program(r), gen.wild_program(r), gen.scoped_program(r), gen.many_looks(r)):
            cases.append({"op": "bytes", "runs": 1, "text": p})
    for g in layout_graphs(c, c.n(800, 8000)):
        cases.append(dict(g, op="bytes", runs=2))
    # Many pictures with many clips, labels and connectors in one process.
    for _ in range(c.n(3, 12)):
        k = r.randint(30, 90)
        cases.append({"op": "bytes", "runs": 40, "text": "digraph { node [shape=Mrecord, label=\"a|{b|c}\"]; %s }" % " ".join(
            "n%d -> n%d [label=\"e%d\"];" % (r.randrange(k), j, j) for j in range(k))})
    # And more pictures than any other process draws.
    cases.append({"op": "bytes", "runs": c.n(6000, 20000), "noopt": False, "nolayout": False, "text": "digraph { a -> b [label=\"x\"]; c [shape=Mrecord, label=\"p|q\"] }"})
    # Pictures that take a while; how long must not matter.
    slow = []
    for _ in range(c.n(16, 40)):
        k = r.randint(50, 130)
        es = [(r.randrange(j), j) for j in range(1, k)] + [r.sample(range(k), 2) for _ in range(k // 2)]
        slow.append({"op": "bytes", "runs": 1, "noopt": False, "nolayout": False, "text": "digraph { %s }" % " ".join("n%d -> n%d;" % tuple(e) for e in es)})
    cases += slow
    for x in cases:
        x.setdefault("noopt", r.random() < 0.3)
        x.setdefault("nolayout", r.random() < 0.15)
        x["debug"] = r.random() < 0.2
    for j, x in enumerate(cases):
        x["id"] = j
    seen = {}
    # The same programs in several processes, each time in another order
    # and with other values in the environment; some of them by a program that
    # was built without optimizations, which takes ten times as long.
    n = c.n(4, 8)
    for rnd in range(n + 1):
        order = list(cases)
        if rnd == n:
            order = slow + r.sample(cases, c.n(1200, 6000))
        if rnd:
            r.shuffle(order)
        for x in c.record(order, "bytes%d" % rnd, timeout=120.0, env=gen.environment(r) if rnd else None, lv=vlib.PLAIN if rnd == n else None):
            d = x["out"].get("digests", []) if x["outcome"] == "ok" else []
            seen.setdefault(x["id"], []).extend([{"ok": True, "d": v} for v in d] or [{"ok": False, "d": x["outcome"]}])
    c.observe("T_Bytes", [dict(cases[j], seen=seen[j]) for j in sorted(seen)], name="repeated")


@check("C23")
def c23(c):
    import shutil, tempfile
    c.model("MC_FileSave")
    r = c.rng
    hist = c.generate("Gen_FileSave", limit=c.n(2500, None))
    # A scratch directory that the unprivileged user of the harness can enter.
    scratch = tempfile.mkdtemp(prefix="lv-save-")
    try:
        import os
        os.chmod(scratch, 0o755)
        def case(ops):
            for o in ops:
                o.update({"k": r.randrange(250), "rel": r.random() < 0.3, "like": r.random() < 0.4})
            stem = r.choice(["", "", "x y ", "\u00e9\u4e2d", "d/", "-", ".", "n" * 180, "a.b.", "./", "d/../", "%s ", "$HOME", "*"])
            end = r.choice([".svg", ".svg", "", ".SVG", ".xml", ".svg.tmp2", " "])
            return {"op": "save", "scratch": scratch, "names": {t: os.path.normpath(stem + t + end) for t in ("a", "b", "ro")}, "ops": ops}
        c.trace("T_Save", [case(h) for h in hist], name="generated")
        cases = []
        sizes = [0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1 << 20]
        for j in range(c.n(600, 6000)):
            ops = []
            for _ in range(r.randint(1, 8)):
                n = r.choice(sizes + [r.randint(0, 300000)]) if j % 60 else r.choice([1500000, 2097153, 5000000])
                if ops and r.random() < 0.25:
                    n = ops[-1]["n"]
                ops.append({"t": r.choice(["a", "a", "a", "b", "ro", "missing", "dir", "full", "empty"]), "n": n,
                            "limit": r.choice([-1, -1, max(0, n - 1), n, n + 1, r.randint(0, 300000), 0, 4096, 8192])})
            cases.append(case(ops))
        c.trace("T_Save", cases, name="faults")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


@check("C24", cli=True)
def c24(c):
    import clirun
    r = c.rng
    lines = c.generate("Gen_Cli", limit=c.n(1500, 12000))

    def text():
        t = gen.dot_join(r, gen.dot_program(r, size=r.choice([2, 5, 9])))
        k = r.random()
        if k < 0.25:
            return gen.char_mutate(r, t)
        if k < 0.255:
            # A text of more than 64 KB, most of which draws nothing.
            return t.replace("{", "{\n" + "// a comment of some length, which is skipped \u00e9\n" * r.randint(1300, 3000), 1)
        t = t if k < 0.6 else gen.drawing_program(r)
        # Line ends of other systems, also inside a label, and other oddities of files.
        k = r.random()
        if k < 0.15:
            end = r.choice(["\r\n", "\r\n", "\r", "\n", "\r\r\n", "\t", "  "])
            t = t.replace("\\n", end).replace(" ", " \r\n", 1)
            t = re.sub(r'= ?"([^"\\]*)"', lambda m: '="%s%s"' % (m.group(1), end + r.choice(["x", ""])) if r.random() < 0.5 else m.group(0), t)
        elif k < 0.2:
            t = r.choice(["\ufeff" + t, t + "\x1a", "", "\n", t.replace("}", "", 1), t + "\n\n", t.replace("\n", "\r"), "#!dot\n" + t])
        return t
    cases = []
    for a in lines:
        cases.append({"args": a, "in": r.choice(["text"] * 8 + ["none", "dir", "bytes"]), "dst": r.choice(["none", "old"])})
    # Every combination of flags on programs, and on texts that are none.
    for _ in range(c.n(1200, 8000)):
        a = ["IN"] + r.choice([["-o", "OUT"], ["--output=OUT"], ["-oOUT"]])
        opts = [x for x in (r.choice(["-d", "--debug"]), r.choice(["-a", "--ast"]), "--no-optz", "--no-layout") if r.random() < 0.5]
        for x in opts:
            a.insert(r.choice([0, len(a)]), x)
        cases.append({"args": a, "in": "text", "dst": r.choice(["none", "old", "old", "dir"])})
    for j, x in enumerate(cases):
        far = ["IN", "in.dot", "g.gv", "a b.dot", "\u00e9\u4e2d.txt", "sub/x.dot", "./in.svg", "IN.dot.svg", ".hidden.dot", "sub/.gv"]
        near = ["OUT", "out.svg", "x.SVG", "a b.svg", "\u00e9.svg", "sub/out.svg", "./o.svg", "out.png", "in", "g.dot.svg", "out.", "...", "out.svg~", "OUT.SVG", "o", ".out.svg"]
        x["names"] = {"IN": r.choice(far), "OUT": r.choice(near)}
        x["abs"] = r.random() < 0.2
        if x["dst"] == "none" and r.random() < 0.05:
            x["dst"], x["names"]["OUT"] = "nowhere", "nowhere/out.svg"
        if x["in"] == "text" and x["dst"] == "none" and r.random() < 0.05:
            x["dst"], x["names"]["OUT"] = "same", x["names"]["IN"]
        x.update({"id": j, "op": "docs", "text": gen.chars("".join(ch for ch in text() if ord(ch) < 0x10000))})
        x["readable"], x["writable"] = x["in"] == "text", x["dst"] not in ("dir", "nowhere")
    libs = {x["id"]: x["out"] for x in c.record(cases, "library", timeout=60.0) if x["outcome"] == "ok"}
    cases = [dict(x, lib=libs[x["id"]]) for x in cases if x["id"] in libs]
    for x, run in zip(cases, clirun.run(cases)):
        x["run"] = run
    c.observe("T_Cli", cases, name="runs")


# ------------------------------------------------------------- the geometry

@check("C25")
def c25(c):
    c.model("MC_Geometry")
    c.trace("T_Geometry", gen.geom_segments(c.generate("Gen_Geometry")), name="segments")
    c.trace("T_Geometry", gen.geom_random(c.rng, c.n(800, 8000)), name="random")


@check("C27")
def c27(c):
    c.model("MC_Position")
    hist = c.generate("Gen_Position", limit=c.n(6000, 60000))
    half = lambda v: [x // 2 for x in v]
    c.trace("T_Position", [{"op": "pos", "init": {k: half(v) for k, v in h["init"].items()}, "ops": h["ops"], "unit": c.rng.choice([1, 2.0 ** -9, 0.125, 16])} for h in hist],
            name="generated")
    c.trace("T_Position", gen.pos_random(c.rng, c.n(1500, 15000)), name="random")
