//! The text front end: lexer, parser, record labels, builder, colors.
use crate::{fx, opt_str};
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::format::Visible;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::gv::parser::ast;
use layout::gv::parser::lexer::{Lexer, Token};
use layout::gv::record::parse_record_string;
use layout::gv::{DotParser, GraphBuilder};
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use serde_json::{json, Value};

/// The text of a case is an array of one-character strings.
pub fn case_text(case: &Value) -> String {
    match &case["text"] {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(|c| c.as_str().unwrap()).collect(),
        _ => String::new(),
    }
}

fn tok(t: &Token) -> Value {
    let (k, s) = match t {
        Token::EOF => ("eof", ""),
        Token::Identifier(s) => ("id", s.as_str()),
        Token::GraphKW => ("graph", ""),
        Token::NodeKW => ("node", ""),
        Token::EdgeKW => ("edge", ""),
        Token::DigraphKW => ("digraph", ""),
        Token::StrictKW => ("strict", ""),
        Token::SubgraphKW => ("subgraph", ""),
        Token::Equal => ("=", ""),
        Token::Colon => (":", ""),
        Token::Comma => (",", ""),
        Token::Semicolon => (";", ""),
        Token::ArrowRight => ("->", ""),
        Token::ArrowLine => ("--", ""),
        Token::OpenBracket => ("[", ""),
        Token::CloseBracket => ("]", ""),
        Token::OpenBrace => ("{", ""),
        Token::CloseBrace => ("}", ""),
        Token::Error(_) => ("err", ""),
    };
    json!({"k":k,"s":s})
}

pub fn lex(case: &Value) -> Value {
    let text = case_text(case);
    let max = text.chars().count() + 4;
    let mut l = Lexer::from_string(&text);
    let mut toks = Vec::new();
    let mut pos = Vec::new();
    for _ in 0..max {
        let t = l.next_token();
        toks.push(tok(&t));
        match t {
            Token::EOF => break,
            Token::Error(p) => {
                pos.push(p);
                break;
            }
            _ => {}
        }
    }
    json!({"toks":toks,"errpos":pos})
}

fn attrs(l: &ast::AttributeList) -> Value {
    Value::Array(l.iter().map(|(k, v)| json!([k, v])).collect())
}

fn ev(e: &str, n: &str, p: &Option<String>, a: Value, c: Value) -> Value {
    json!({"e":e,"n":n,"p":opt_str(p),"a":a,"c":c})
}

fn walk(list: &ast::StmtList, out: &mut Vec<Value>) {
    for s in &list.list {
        match s {
            ast::Stmt::Node(n) => {
                out.push(ev("node", &n.id.name, &n.id.port, attrs(&n.list), json!([])))
            }
            ast::Stmt::Edge(e) => {
                let c: Vec<Value> = e
                    .to
                    .iter()
                    .map(|(id, k)| {
                        json!({"n":id.name,"p":opt_str(&id.port),
                        "k": match k { ast::ArrowKind::Arrow => "->", ast::ArrowKind::Line => "--" }})
                    })
                    .collect();
                out.push(ev("edge", &e.from.name, &e.from.port, attrs(&e.list), Value::Array(c)))
            }
            ast::Stmt::Attribute(a) => {
                let t = match a.target {
                    ast::AttrStmtTarget::Graph => "graph",
                    ast::AttrStmtTarget::Node => "node",
                    ast::AttrStmtTarget::Edge => "edge",
                };
                out.push(ev("attr", t, &None, attrs(&a.list), json!([])))
            }
            ast::Stmt::SubGraph(g) => {
                out.push(ev("open", &g.name, &None, json!([]), json!([])));
                walk(&g.list, out);
                out.push(ev("close", "", &None, json!([]), json!([])));
            }
        }
    }
}

pub fn events(g: &ast::Graph) -> Value {
    let mut out = Vec::new();
    out.push(ev("open", &g.name, &None, json!([]), json!([])));
    walk(&g.list, &mut out);
    out.push(ev("close", "", &None, json!([]), json!([])));
    Value::Array(out)
}

pub fn parse(case: &Value) -> Value {
    let text = case_text(case);
    let mut p = DotParser::new(&text);
    match p.process() {
        Ok(g) => {
            if case["report"].as_bool().unwrap_or(false) {
                layout::gv::dump_ast(&g);
            }
            json!({"res":"tree","ev":events(&g)})
        }
        Err(e) => {
            // The command line tool reports errors this way.
            if case["report"].as_bool().unwrap_or(false) {
                p.print_error();
            }
            json!({"res":"error","ev":[],"said":!e.is_empty()})
        }
    }
}

pub fn rec_tree(r: &RecordDef) -> Value {
    match r {
        RecordDef::Text(t, p) => json!({"t":"text","s":t,"p":opt_str(p),"c":[]}),
        RecordDef::Array(a) => {
            let c: Vec<Value> = a.iter().map(rec_tree).collect();
            json!({"t":"row","s":"","p":[],"c":c})
        }
    }
}

/// Preorder listing of a record: one entry per cell with its depth. Easier to
/// compare than a recursive value.
pub fn rec_list(r: &RecordDef, depth: usize, out: &mut Vec<Value>) {
    match r {
        RecordDef::Text(t, p) => {
            out.push(json!({"t":"text","d":depth,"s":t,"p":opt_str(p),"n":0}))
        }
        RecordDef::Array(a) => {
            out.push(json!({"t":"row","d":depth,"s":"","p":[],"n":a.len()}));
            for e in a {
                rec_list(e, depth + 1, out);
            }
        }
    }
}

pub fn record(case: &Value) -> Value {
    let text = case_text(case);
    let r = parse_record_string(&text);
    let mut l = Vec::new();
    rec_list(&r, 0, &mut l);
    json!({ "cells": l })
}

pub fn color(case: &Value) -> Value {
    let name = case["name"].as_str().unwrap();
    let c = match Color::from_name(name) {
        Some(c) => json!([c.to_web_color()]),
        None => json!([]),
    };
    json!({"named":c,"fast":Color::fast(name).to_web_color()})
}

pub fn ori(o: Orientation) -> &'static str {
    if o.is_top_to_bottom() {
        "TB"
    } else {
        "LR"
    }
}

pub fn small(v: usize) -> i64 {
    if v > 2000000000 {
        2147483647
    } else {
        v as i64
    }
}

pub fn look(l: &StyleAttr) -> Value {
    json!({"lc":l.line_color.to_web_color(),"lw":small(l.line_width),
        "fc":match l.fill_color { Some(c)=>json!([c.to_web_color()]), None=>json!([]) },
        "rd":small(l.rounded),"fs":small(l.font_size)})
}

pub fn elem(e: &Element) -> Value {
    let mut cells = Vec::new();
    let (kind, text) = match &e.shape {
        ShapeKind::None => ("none", String::new()),
        ShapeKind::Box(t) => ("box", t.clone()),
        ShapeKind::Circle(t) => ("circle", t.clone()),
        ShapeKind::DoubleCircle(t) => ("dcircle", t.clone()),
        ShapeKind::Record(r) => {
            rec_list(r, 0, &mut cells);
            ("record", String::new())
        }
        ShapeKind::Connector(Some(t)) => ("label", t.clone()),
        ShapeKind::Connector(None) => ("conn", String::new()),
    };
    let pos = e.position();
    let sz = pos.size(false);
    json!({"kind":kind,"text":text,"cells":cells,"look":look(&e.look),
        "w":fx(sz.x),"h":fx(sz.y),"ori":ori(e.orientation),"prop":opt_str(&e.properties)})
}

pub fn arrow(a: &Arrow) -> Value {
    json!({"start":matches!(a.start,LineEndKind::Arrow),"end":matches!(a.end,LineEndKind::Arrow),
        "style":match a.line_style { LineStyleKind::Normal=>"normal",LineStyleKind::Dashed=>"dashed",
            LineStyleKind::Dotted=>"dotted",LineStyleKind::None=>"none"},
        "text":a.text,"look":look(&a.look),"sp":opt_str(&a.src_port),"dp":opt_str(&a.dst_port),
        "prop":opt_str(&a.properties)})
}

pub fn graph_dump(vg: &VisualGraph) -> Value {
    let nodes: Vec<Value> = vg.iter_nodes().map(|h| elem(vg.element(h))).collect();
    let edges: Vec<Value> = vg
        .verif_edges()
        .iter()
        .map(|(a, l)| {
            let mut v = arrow(a);
            v["path"] = crate::adt::hs(l);
            v
        })
        .collect();
    json!({"ori":ori(vg.orientation()),"nodes":nodes,"edges":edges})
}

pub fn build(case: &Value) -> Value {
    let text = case_text(case);
    let mut p = DotParser::new(&text);
    match p.process() {
        Ok(g) => {
            let mut gb = GraphBuilder::new();
            gb.visit_graph(&g);
            let vg = gb.get();
            json!({"res":"graph","g":graph_dump(&vg)})
        }
        Err(_) => json!({"res":"error","g":{}}),
    }
}
