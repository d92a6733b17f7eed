//! Conformance harness: executes one case per line against the real crate and
//! writes what the code did, one result per line. It decides nothing: the
//! TLA+ trace specifications in ../../spec judge the recorded behaviour.
//!
//! usage: lv run CASES.ndjson OUT.ndjson FIRST LAST
mod adt;
mod draw;
mod geom;
mod save;
mod text;
mod topo;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Fixed point coordinate in thousandths. Values which do not fit (or are not
/// finite) are reported with the out-of-range marker 2^31-1.
pub fn fx(v: f64) -> i64 {
    if !v.is_finite() {
        return 2147483647;
    }
    let r = (v * 1000.0).round();
    if r.abs() >= 2147483647.0 {
        return 2147483647;
    }
    r as i64
}

pub fn opt_str(s: &Option<String>) -> Value {
    match s {
        Some(x) => json!([x]),
        None => json!([]),
    }
}

/// Run `f`, turning a panic into data.
pub fn guarded<F: FnOnce() -> Value>(f: F) -> (String, Value, String) {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => ("ok".to_string(), v, String::new()),
        Err(_) => (
            "panic".to_string(),
            json!({}),
            LAST_PANIC.with(|p| p.borrow().clone()),
        ),
    }
}

fn exec(case: &Value) -> Value {
    match case["op"].as_str().unwrap_or("") {
        "smap" => adt::smap(case),
        "dag" => adt::dag(case),
        "lex" => text::lex(case),
        "parse" => text::parse(case),
        "record" => text::record(case),
        "build" => text::build(case),
        "color" => text::color(case),
        "pipeline" => topo::pipeline(case),
        "lower" => topo::lower(case),
        "sink" => topo::sink(case),
        "cross" => topo::cross(case),
        "crosslow" => topo::crosslow(case),
        "layout" => topo::layout(case),
        "svgcalls" => draw::svgcalls(case),
        "geom" => geom::geom(case),
        "pos" => geom::pos(case),
        "docs" => topo::docs(case),
        "bytes" => topo::bytes(case),
        "save" => save::save(case),
        o => panic!("unknown op {}", o),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 || args[1] != "run" {
        eprintln!("usage: lv run CASES OUT FIRST LAST");
        std::process::exit(64);
    }
    let first: usize = args[4].parse().unwrap();
    let last: usize = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = format!("{} {}", loc, msg.chars().take(200).collect::<String>());
            }
        });
    }));
    let cases = BufReader::new(std::fs::File::open(&args[2]).expect("cases"));
    let mut out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .expect("out");
    for (i, line) in cases.lines().enumerate() {
        if i < first {
            continue;
        }
        if i >= last {
            break;
        }
        let case: Value = serde_json::from_str(&line.expect("line")).expect("json");
        let (outcome, val, msg) = guarded(|| exec(&case));
        let mut res = case;
        res["k"] = json!(i);
        res["outcome"] = json!(outcome);
        res["msg"] = json!(msg);
        res["out"] = val;
        let mut s = serde_json::to_string(&res).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).expect("write");
    }
}
