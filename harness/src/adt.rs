//! The containers: the scoped map and the ranked DAG.
use crate::guarded;
use layout::adt::dag::{NodeHandle, DAG};
use layout::adt::map::ScopedMap;
use serde_json::{json, Value};

fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

/// ops: [["push"],["pop"],["ins",k,v],["get",k]]
/// After every operation the whole observable state is recorded.
pub fn smap(case: &Value) -> Value {
    let mut m: ScopedMap<String, i64> = ScopedMap::new();
    let keys: Vec<String> = case["keys"]
        .as_array()
        .unwrap()
        .iter()
        .map(|k| k.as_str().unwrap().to_string())
        .collect();
    let mut steps = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let (oc, _, _) = guarded(|| {
            match op["o"].as_str().unwrap() {
                "push" => m.push(),
                "pop" => m.pop(),
                "ins" => {
                    m.insert(&op["key"].as_str().unwrap().to_string(), &op["v"].as_i64().unwrap())
                }
                o => panic!("bad op {}", o),
            }
            json!({})
        });
        let flat = m.flatten();
        let get: Vec<Value> = keys
            .iter()
            .map(|k| match m.get(k) {
                Some(v) => json!([v]),
                None => json!([]),
            })
            .collect();
        let has: Vec<Value> = keys.iter().map(|k| json!(m.has(k))).collect();
        let fl: Vec<Value> = keys
            .iter()
            .map(|k| match flat.get(k) {
                Some(v) => json!([v]),
                None => json!([]),
            })
            .collect();
        steps.push(json!({"oc":oc,"get":get,"has":has,"flat":fl,"nflat":flat.len(),
            "len":m.len(),"empty":m.is_empty()}));
    }
    json!({ "steps": steps })
}

pub fn hs(v: &[NodeHandle]) -> Value {
    Value::Array(v.iter().map(|h| json!(h.get_index())).collect())
}

pub fn dag_state(d: &DAG) -> Value {
    let n = d.len();
    let succ: Vec<Value> = d.iter().map(|h| hs(d.successors(h))).collect();
    let pred: Vec<Value> = d.iter().map(|h| hs(d.predecessors(h))).collect();
    let rows: Vec<Value> = (0..d.num_levels()).map(|l| hs(d.row(l))).collect();
    json!({"n":n,"succ":succ,"pred":pred,"rows":rows})
}

/// Queries: the derived observations on the current state.
fn dag_queries(d: &DAG) -> Value {
    let n = d.len();
    let mut reach = Vec::new();
    let mut sp = Vec::new();
    let mut ss = Vec::new();
    let mut lvl = Vec::new();
    let one = |x: Option<NodeHandle>| match x {
        Some(h) => json!([h.get_index()]),
        None => json!([]),
    };
    for i in 0..n {
        let h = NodeHandle::new(i);
        let mut row = Vec::new();
        for j in 0..n {
            row.push(json!(d.is_reachable(h, NodeHandle::new(j))));
        }
        reach.push(Value::Array(row));
        sp.push(one(d.single_pred(h)));
        ss.push(one(d.single_succ(h)));
        lvl.push(json!(d.level(h)));
    }
    let mut first = Vec::new();
    let mut last = Vec::new();
    for l in 0..d.num_levels() + 1 {
        let mut f = Vec::new();
        let mut e = Vec::new();
        for i in 0..n {
            f.push(json!(d.is_first_in_row(NodeHandle::new(i), l)));
            e.push(json!(d.is_last_in_row(NodeHandle::new(i), l)));
        }
        first.push(Value::Array(f));
        last.push(Value::Array(e));
    }
    json!({"reach":reach,"sp":sp,"ss":ss,"lvl":lvl,"first":first,"last":last,
           "len":d.len(),"empty":d.is_empty(),"levels":d.num_levels(),
           "iter": d.iter().map(|h| h.get_index()).collect::<Vec<_>>()})
}

pub fn dag(case: &Value) -> Value {
    let mut d = DAG::new();
    let mut steps = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let a = |i: usize| NodeHandle::new(us(&op["a"][i]));
        let (oc, ret, _) = guarded(|| match op["o"].as_str().unwrap() {
            "new" => json!({"r":[d.new_node().get_index()]}),
            "news" => {
                d.new_nodes(us(&op["a"][0]));
                json!({"r":[]})
            }
            "edge" => {
                d.add_edge(a(0), a(1));
                json!({"r":[]})
            }
            "unedge" => json!({"r":[d.remove_edge(a(0), a(1)) as u8]}),
            "move" => {
                let before = if op["a"].as_array().unwrap().len() > 2 {
                    Some(a(2))
                } else {
                    None
                };
                d.update_node_rank_level(a(0), us(&op["a"][1]), before);
                json!({"r":[]})
            }
            "rank" => {
                d.recompute_node_ranks();
                json!({"r":[]})
            }
            "verify" => {
                d.verify();
                json!({"r":[]})
            }
            "clear" => {
                d.clear();
                json!({"r":[]})
            }
            o => panic!("bad op {}", o),
        });
        let (qc, q, _) = guarded(|| json!({"st":dag_state(&d), "q":dag_queries(&d)}));
        steps.push(json!({"oc":oc,"ret":if oc=="ok" {ret["r"].clone()} else {json!([])},
                          "qc":qc,"o":if qc=="ok" {q} else {json!({})}}));
        if oc != "ok" || qc != "ok" {
            break;
        }
    }
    json!({ "steps": steps })
}
