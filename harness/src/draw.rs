//! A recording backend, and scripted draw calls on the SVG backend.
use crate::text::{look, small};
use crate::topo::look_of;
use crate::{fx, opt_str};
use layout::backends::svg::SVGWriter;
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use serde_json::{json, Value};

pub struct Recorder {
    pub calls: Vec<Value>,
    clips: usize,
}

impl Recorder {
    pub fn new() -> Self {
        Recorder { calls: Vec::new(), clips: 0 }
    }
}

fn call(c: &str, xy: Point, size: Point, l: Option<&StyleAttr>) -> Value {
    let lk = match l {
        Some(l) => look(l),
        None => json!({"lc":"","lw":0,"fc":[],"rd":0,"fs":0}),
    };
    json!({"c":c,"x":fx(xy.x),"y":fx(xy.y),"w":fx(size.x),"h":fx(size.y),"look":lk,
        "prop":[],"clip":[],"text":"","path":[],"dash":false,"hs":false,"he":false,"rd":0})
}

impl RenderBackend for Recorder {
    fn draw_rect(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
        clip: Option<ClipHandle>,
    ) {
        let mut v = call("rect", xy, size, Some(look));
        v["prop"] = opt_str(&properties);
        v["clip"] = match clip {
            Some(c) => json!([small(c)]),
            None => json!([]),
        };
        self.calls.push(v);
    }
    fn draw_line(
        &mut self,
        start: Point,
        stop: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        let mut v = call("line", start, stop, Some(look));
        v["prop"] = opt_str(&properties);
        self.calls.push(v);
    }
    fn draw_circle(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        let mut v = call("circle", xy, size, Some(look));
        v["prop"] = opt_str(&properties);
        self.calls.push(v);
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        let mut v = call("text", xy, Point::zero(), Some(look));
        v["text"] = json!(text);
        self.calls.push(v);
    }
    fn draw_arrow(
        &mut self,
        path: &[(Point, Point)],
        dashed: bool,
        head: (bool, bool),
        look: &StyleAttr,
        properties: Option<String>,
        text: &str,
    ) {
        let mut v = call("arrow", Point::zero(), Point::zero(), Some(look));
        v["prop"] = opt_str(&properties);
        v["text"] = json!(text);
        v["dash"] = json!(dashed);
        v["hs"] = json!(head.0);
        v["he"] = json!(head.1);
        v["path"] = Value::Array(
            path.iter()
                .map(|(a, b)| json!([fx(a.x), fx(a.y), fx(b.x), fx(b.y)]))
                .collect(),
        );
        self.calls.push(v);
    }
    fn create_clip(&mut self, xy: Point, size: Point, rounded_px: usize) -> ClipHandle {
        let mut v = call("clip", xy, size, None);
        v["rd"] = json!(small(rounded_px));
        v["clip"] = json!([self.clips]);
        self.calls.push(v);
        self.clips += 1;
        self.clips - 1
    }
}

fn num(v: &Value, q: f64) -> f64 {
    v.as_i64().unwrap_or(0) as f64 / q
}

fn pstr(v: &Value) -> Option<String> {
    v.as_array()
        .and_then(|a| a.first())
        .map(|s| s.as_str().unwrap().to_string())
}

/// calls: scripted draw calls (coordinates in parts of a pixel, `q` to one). The output is the finalized document after the whole script.
pub fn svgcalls(case: &Value) -> Value {
    let mut w = SVGWriter::new();
    let mut handles = Vec::new();
    for c in case["calls"].as_array().unwrap() {
        let q = c["q"].as_f64().unwrap();
        let xy = Point::new(num(&c["x"], q), num(&c["y"], q));
        let sz = Point::new(num(&c["w"], q), num(&c["h"], q));
        let lk = look_of(&c["look"]);
        let prop = pstr(&c["prop"]);
        match c["c"].as_str().unwrap() {
            "rect" => {
                let clip = c["clip"].as_array().unwrap().first().map(|i| handles[i.as_u64().unwrap() as usize]);
                w.draw_rect(xy, sz, &lk, prop, clip)
            }
            "circle" => w.draw_circle(xy, sz, &lk, prop),
            "line" => w.draw_line(xy, sz, &lk, prop),
            "text" => w.draw_text(xy, c["text"].as_str().unwrap(), &lk),
            "clip" => {
                let h = w.create_clip(xy, sz, c["rd"].as_u64().unwrap() as usize);
                handles.push(h);
            }
            "arrow" => {
                let path: Vec<(Point, Point)> = c["path"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (Point::new(num(&p[0], q), num(&p[1], q)), Point::new(num(&p[2], q), num(&p[3], q))))
                    .collect();
                w.draw_arrow(
                    &path,
                    c["dash"].as_bool().unwrap(),
                    (c["hs"].as_bool().unwrap(), c["he"].as_bool().unwrap()),
                    &lk,
                    prop,
                    c["text"].as_str().unwrap(),
                )
            }
            o => panic!("bad call {}", o),
        }
    }
    json!({"svg":w.finalize(),"handles":handles})
}
