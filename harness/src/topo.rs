//! The layout engine: lowering, rank and crossing optimizers, full layouts.
use crate::adt::{dag_state, hs};
use crate::draw::Recorder;
use crate::text::{arrow, case_text, elem, graph_dump};
use crate::{fx, guarded};
use layout::adt::dag::{NodeHandle, DAG};
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::topo::optimizer::{EdgeCrossOptimizer, RankOptimizer};
use layout::topo::placer::Placer;
use serde_json::{json, Value};

pub fn orientation(v: &Value) -> Orientation {
    if v.as_str() == Some("LR") {
        Orientation::LeftToRight
    } else {
        Orientation::TopToBottom
    }
}

fn us(v: &Value, d: usize) -> usize {
    v.as_u64().map(|x| x as usize).unwrap_or(d)
}

fn st(v: &Value, d: &str) -> String {
    v.as_str().unwrap_or(d).to_string()
}

fn port(v: &Value) -> Option<String> {
    v.as_array()
        .and_then(|a| a.first())
        .and_then(|x| x.as_str())
        .map(|s| s.to_string())
}

pub fn look_of(v: &Value) -> StyleAttr {
    let fill = match &v["fc"] {
        Value::String(s) => Some(Color::fast(s)),
        Value::Array(a) if a.is_empty() => None,
        Value::Array(a) => Some(Color::fast(a[0].as_str().unwrap())),
        _ => Some(Color::fast("white")),
    };
    StyleAttr::new(
        Color::fast(v["lc"].as_str().unwrap_or("black")),
        us(&v["lw"], 1),
        fill,
        us(&v["rd"], 0),
        us(&v["fs"], 14),
    )
}

pub fn rec_of(v: &Value) -> RecordDef {
    if let Some(a) = v.as_array() {
        return RecordDef::Array(a.iter().map(rec_of).collect());
    }
    RecordDef::Text(st(&v["s"], ""), port(&v["p"]))
}

pub fn arrow_of(e: &Value) -> Arrow {
    let end = |b: bool| if b { LineEndKind::Arrow } else { LineEndKind::None };
    let style = match e["style"].as_str().unwrap_or("normal") {
        "dashed" => LineStyleKind::Dashed,
        "dotted" => LineStyleKind::Dotted,
        "none" => LineStyleKind::None,
        _ => LineStyleKind::Normal,
    };
    let mut a = Arrow::new(
        end(e["start"].as_bool().unwrap_or(false)),
        end(e["end"].as_bool().unwrap_or(true)),
        style,
        e["text"].as_str().unwrap_or(""),
        &look_of(e),
        &port(&e["sp"]),
        &port(&e["dp"]),
    );
    a.properties = port(&e["prop"]);
    a
}

/// Build a graph from its JSON description through the public API.
pub fn graph_of(g: &Value, transposed: bool) -> VisualGraph {
    let mut dir = orientation(&g["ori"]);
    if transposed {
        dir = dir.flip();
    }
    let mut vg = VisualGraph::new(dir);
    let mut handles = Vec::new();
    for n in g["nodes"].as_array().unwrap() {
        let text = st(&n["text"], "");
        let shape = match n["kind"].as_str().unwrap_or("box") {
            "circle" => ShapeKind::new_circle(&text),
            "dcircle" => ShapeKind::new_double_circle(&text),
            "record" => ShapeKind::new_record(&rec_of(&n["rec"])),
            "none" => ShapeKind::None,
            _ => ShapeKind::new_box(&text),
        };
        let mut sz = Point::new(us(&n["w"], 60) as f64, us(&n["h"], 40) as f64);
        if transposed {
            sz = sz.transpose();
        }
        // The builder creates shapes with the flipped orientation.
        let mut o = match n["eori"].as_str() {
            Some("flip") => orientation(&g["ori"]).flip(),
            _ => orientation(&g["ori"]),
        };
        if transposed {
            o = o.flip();
        }
        let mut e = Element::create(shape, look_of(n), o, sz);
        e.properties = port(&n["prop"]);
        handles.push(vg.add_node(e));
    }
    for e in g["edges"].as_array().unwrap() {
        vg.add_edge(arrow_of(e), handles[us(&e["f"], 0)], handles[us(&e["t"], 0)]);
    }
    vg
}

pub fn graph_of_text(text: &str) -> Option<VisualGraph> {
    let mut p = DotParser::new(text);
    match p.process() {
        Ok(g) => {
            let mut gb = GraphBuilder::new();
            gb.visit_graph(&g);
            Some(gb.get())
        }
        Err(_) => None,
    }
}

pub fn graph_of_case(case: &Value, transposed: bool) -> VisualGraph {
    if case["text"].is_null() {
        graph_of(&case["graph"], transposed)
    } else {
        graph_of_text(&case_text(case)).expect("the program must parse")
    }
}

fn stage(vg: &VisualGraph) -> Value {
    let mut g = graph_dump(vg);
    g["self"] = Value::Array(
        vg.verif_self_edges()
            .iter()
            .map(|(a, h)| {
                let mut v = arrow(a);
                v["path"] = json!([h.get_index()]);
                v
            })
            .collect(),
    );
    g["dag"] = dag_state(&vg.dag);
    g
}

/// The stages of lowering, up to the one asked for.
pub fn lower(case: &Value) -> Value {
    let noopt = flag(case, "noopt");
    let upto = case["upto"].as_str().unwrap_or("final");
    let mut vg = graph_of_case(case, false);
    let mut res = json!({"built":stage(&vg)});
    vg.to_valid_dag();
    res["valid"] = stage(&vg);
    if upto == "valid" {
        return res;
    }
    vg.split_text_edges();
    res["text"] = stage(&vg);
    vg.split_long_edges(noopt);
    res["long"] = stage(&vg);
    if upto == "long" {
        return res;
    }
    // The whole through the single public entry point.
    let mut v2 = graph_of_case(case, false);
    let mut rec = Recorder::new();
    v2.do_it(false, noopt, flag(case, "nolayout"), &mut rec);
    res["final"] = stage(&v2);
    res
}

fn dag_of(case: &Value) -> DAG {
    let mut d = DAG::new();
    d.new_nodes(us(&case["n"], 0));
    for e in case["edges"].as_array().unwrap() {
        d.add_edge(NodeHandle::new(us(&e[0], 0)), NodeHandle::new(us(&e[1], 0)));
    }
    d
}

pub fn sink(case: &Value) -> Value {
    let mut d = dag_of(case);
    d.recompute_node_ranks();
    let before = dag_state(&d);
    RankOptimizer::new(&mut d).optimize();
    let after = dag_state(&d);
    // Single steps, as the library exposes them.
    let mut d2 = dag_of(case);
    d2.recompute_node_ranks();
    let mut steps = Vec::new();
    if let Some(a) = case["steps"].as_array() {
        for x in a {
            let n = us(x, 0);
            let r = RankOptimizer::new(&mut d2).try_to_sink_node(NodeHandle::new(n));
            steps.push(json!({"n":n,"r":r,"st":dag_state(&d2)}));
        }
    }
    json!({"before":before,"after":after,"steps":steps})
}

pub fn cross(case: &Value) -> Value {
    let mut d = dag_of(case);
    d.recompute_node_ranks();
    if let Some(rows) = case["rows"].as_array() {
        // Rotate each row as asked, to start from various orders.
        for (l, r) in rows.iter().enumerate() {
            if l < d.num_levels() {
                let row = d.row_mut(l);
                let len = row.len();
                if len > 0 {
                    let a = us(r, 0);
                    row.rotate_left(a % len);
                    if (a / len) % 2 == 1 {
                        row.reverse();
                    }
                }
            }
        }
    }
    // Each run starts from the result of the one before.
    let mut states = vec![dag_state(&d)];
    for _ in 0..us(&case["runs"], 1) {
        EdgeCrossOptimizer::new(&mut d).optimize();
        states.push(dag_state(&d));
    }
    json!({ "states": states })
}

/// A graph with its rows as the lowering leaves them, without and with
/// optimizations.
pub fn crosslow(case: &Value) -> Value {
    let states: Vec<Value> = [true, false]
        .iter()
        .map(|noopt| {
            let mut vg = graph_of_case(case, false);
            vg.to_valid_dag();
            vg.split_text_edges();
            vg.split_long_edges(*noopt);
            dag_state(&vg.dag)
        })
        .collect();
    json!({ "states": states })
}

pub fn pos_dump(vg: &VisualGraph) -> Value {
    Value::Array(
        vg.iter_nodes()
            .map(|h| {
                let e = vg.element(h);
                let p = e.position();
                let b = p.bbox(false);
                let o = p.bbox(true);
                let c = p.center();
                let m = p.middle();
                let mut v = elem(e);
                v["x0"] = json!(fx(b.0.x));
                v["y0"] = json!(fx(b.0.y));
                v["x1"] = json!(fx(b.1.x));
                v["y1"] = json!(fx(b.1.y));
                v["X0"] = json!(fx(o.0.x));
                v["Y0"] = json!(fx(o.0.y));
                v["X1"] = json!(fx(o.1.x));
                v["Y1"] = json!(fx(o.1.y));
                v["cx"] = json!(fx(c.x));
                v["cy"] = json!(fx(c.y));
                v["mx"] = json!(fx(m.x));
                v["my"] = json!(fx(m.y));
                v
            })
            .collect(),
    )
}

fn flag(case: &Value, k: &str) -> bool {
    case[k].as_bool().unwrap_or(false)
}

pub fn laid_out(vg: &mut VisualGraph, case: &Value, debug: bool) -> Value {
    let mut rec = Recorder::new();
    vg.do_it(debug, flag(case, "noopt"), flag(case, "nolayout"), &mut rec);
    let edges: Vec<Value> = vg
        .verif_edges()
        .iter()
        .map(|(a, l)| {
            let mut v = arrow(a);
            v["path"] = hs(l);
            v
        })
        .collect();
    let rows: Vec<Value> = (0..vg.dag.num_levels()).map(|l| hs(vg.dag.row(l))).collect();
    json!({"ori":crate::text::ori(vg.orientation()),"nodes":pos_dump(vg),"edges":edges,"rows":rows,
           "calls":rec.calls})
}

/// A full layout drawn on a recording backend.
pub fn layout(case: &Value) -> Value {
    let mut vg = graph_of_case(case, false);
    let built = graph_dump(&vg);
    let main = laid_out(&mut vg, case, flag(case, "debug"));
    let mut res = json!({"built":built,"main":main});
    if flag(case, "mirror") {
        let mut t = graph_of_case(case, true);
        res["mirror"] = laid_out(&mut t, case, false);
    }
    if flag(case, "plain") {
        // The same graph drawn without the debug marks.
        let mut t = graph_of_case(case, false);
        res["plain"] = laid_out(&mut t, case, false);
    }
    if flag(case, "svg") {
        let mut t = graph_of_case(case, false);
        let mut w = SVGWriter::new();
        t.do_it(flag(case, "debug"), flag(case, "noopt"), flag(case, "nolayout"), &mut w);
        res["svg"] = json!(w.finalize());
    }
    res
}

/// No attribute has a number that is not finite. Labels may say what they want.
fn finite_tags(svg: &str) -> bool {
    let mut tag = String::new();
    let mut inside = false;
    for c in svg.chars() {
        match c {
            '<' => {
                inside = true;
                tag.clear();
            }
            '>' => {
                let word = |w: &str| {
                    tag.split(|c: char| !c.is_alphanumeric()).any(|x| x == w)
                };
                if inside && (word("NaN") || word("inf")) {
                    return false;
                }
                inside = false;
            }
            c if inside => tag.push(c),
            _ => {}
        }
    }
    true
}

/// Text to picture under every combination of flags, one guarded phase at a
/// time.
pub fn pipeline(case: &Value) -> Value {
    let text = case_text(case);
    let mut phases = Vec::new();
    let mut tree = None;
    let (oc, v, msg) = guarded(|| {
        let mut p = DotParser::new(&text);
        match p.process() {
            Ok(g) => {
                tree = Some(g);
                json!({"r":"tree"})
            }
            Err(_) => {
                p.print_error();
                json!({"r":"error"})
            }
        }
    });
    phases.push(json!({"p":"parse","f":[],"oc":oc,"r":if oc=="ok" {v["r"].clone()} else {json!("")},"msg":msg}));
    if let Some(g) = tree {
        let (oc, _, msg) = guarded(|| {
            layout::gv::dump_ast(&g);
            json!({})
        });
        phases.push(json!({"p":"dump","f":[],"oc":oc,"r":"","msg":msg}));
        let (oc, _, msg) = guarded(|| {
            let mut gb = GraphBuilder::new();
            gb.visit_graph(&g);
            let _ = gb.get();
            json!({})
        });
        phases.push(json!({"p":"build","f":[],"oc":oc,"r":"","msg":msg}));
        if oc == "ok" {
            for f in 0..8 {
                let (oc, v, msg) = guarded(|| {
                    let mut gb = GraphBuilder::new();
                    gb.visit_graph(&g);
                    let mut vg = gb.get();
                    let mut w = SVGWriter::new();
                    vg.do_it(f & 1 != 0, f & 2 != 0, f & 4 != 0, &mut w);
                    let s = w.finalize();
                    let whole = s.matches("<svg").count() == 1
                        && s.matches("</svg>").count() == 1
                        && s.trim_end().ends_with("</svg>");
                    let finite = finite_tags(&s);
                    json!({"r": if whole && finite {"svg"} else {"broken"}})
                });
                phases.push(json!({"p":"draw","f":[f&1!=0,f&2!=0,f&4!=0],"oc":oc,
                    "r":if oc=="ok" {v["r"].clone()} else {json!("")},"msg":msg}));
            }
        }
    }
    json!({ "phases": phases })
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}-{}", h, s.len())
}

/// The bytes of the picture, as a digest, drawn `runs` times.
pub fn bytes(case: &Value) -> Value {
    let mut d = Vec::new();
    for _ in 0..us(&case["runs"], 2) {
        let mut vg = graph_of_case(case, false);
        let mut w = SVGWriter::new();
        vg.do_it(flag(case, "debug"), flag(case, "noopt"), flag(case, "nolayout"), &mut w);
        d.push(json!(fnv(&w.finalize())));
        // Finalizing twice must give the same bytes.
        d.push(json!(fnv(&w.finalize())));
    }
    json!({ "digests": d })
}

/// What the library makes of a text: its tree, or the error; and the digest of
/// the picture under every combination of the flags.
pub fn docs(case: &Value) -> Value {
    let text = case_text(case);
    let mut p = DotParser::new(&text);
    match p.process() {
        Ok(g) => {
            let mut d = Vec::new();
            for f in 0..8 {
                let mut gb = GraphBuilder::new();
                gb.visit_graph(&g);
                let mut vg = gb.get();
                let mut w = SVGWriter::new();
                vg.do_it(f & 1 != 0, f & 2 != 0, f & 4 != 0, &mut w);
                d.push(json!(fnv(&w.finalize())));
            }
            json!({"res":"tree","ev":crate::text::events(&g),"err":"","docs":d})
        }
        Err(e) => json!({"res":"error","ev":[],"err":e,"docs":[]}),
    }
}
