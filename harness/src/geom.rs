//! Geometry predicates and the Position object.
use crate::{fx, guarded};
use layout::core::geometry::*;
use serde_json::{json, Value};

fn f(v: &Value) -> f64 {
    v.as_i64().unwrap() as f64
}
fn pt(v: &Value) -> Point {
    Point::new(f(&v[0]), f(&v[1]))
}

/// qs: a batch of queries, each {"q":kind,"a":[ints],"s":unit}. Lengths are in
/// the unit 1/s, a power of two; answers that are lengths are in that unit too.
pub fn geom(case: &Value) -> Value {
    let mut res = Vec::new();
    for q in case["qs"].as_array().unwrap() {
        let kind = q["q"].as_str().unwrap();
        let s = q["s"].as_f64().unwrap_or(1.0);
        // The last argument of some is no length.
        let bare = if ["arith", "rot", "lerp"].contains(&kind) { 4 } else { 99 };
        let a: Vec<f64> = q["a"].as_array().unwrap().iter().map(f).enumerate()
            .map(|(j, v)| if j == bare { v } else { v / s }).collect();
        let fx = |v: f64| fx(v * s);
        let p = |i: usize| Point::new(a[i], a[i + 1]);
        let (oc, v, _) = guarded(|| match kind {
            "segrect" => {
                json!([segment_rect_intersection((p(0), p(2)), (p(4), p(6))) as i64])
            }
            "boxes" => json!([do_boxes_intersect((p(0), p(2)), (p(4), p(6))) as i64]),
            "range" => json!([in_range((a[0], a[1]), a[2]) as i64]),
            // Medians are reported doubled, they are exact halves.
            "median" => json!([(weighted_median(&a) * 2.0 * s) as i64]),
            "square" => {
                let r = make_size_square(p(0));
                json!([fx(r.x), fx(r.y)])
            }
            "pad" => {
                let r = pad_shape_scalar(p(0), a[2]);
                json!([fx(r.x), fx(r.y)])
            }
            "box" => {
                let (c, d) = get_connection_point_for_box(p(0), p(2), p(4), a[6]);
                json!([fx(c.x), fx(c.y), fx(d.x), fx(d.y)])
            }
            "circle" => {
                let (c, d) = get_connection_point_for_circle(p(0), p(2), p(4), a[6]);
                json!([fx(c.x), fx(c.y), fx(d.x), fx(d.y)])
            }
            "pass" => {
                let (c, d) = get_passthrough_path_invisible(p(0), p(2), p(4), p(6), a[8]);
                json!([fx(c.x), fx(c.y), fx(d.x), fx(d.y)])
            }
            "vec" => {
                let (c, d) = create_vector_of_length(p(0), p(2), a[4]);
                json!([fx(c.x), fx(c.y), fx(d.x), fx(d.y)])
            }
            "arith" => {
                let s = p(0).add(p(2));
                let d = p(0).sub(p(2));
                let n = p(0).neg();
                let t = p(0).transpose();
                let k = p(0).scale(a[4]);
                json!([fx(s.x),fx(s.y),fx(d.x),fx(d.y),fx(n.x),fx(n.y),fx(t.x),fx(t.y),fx(k.x),fx(k.y)])
            }
            "rot" => {
                // Rotate by quarter turns around a center.
                let r = p(0).rotate_around(p(2), (a[4] * 90.0).to_radians());
                json!([fx(r.x), fx(r.y)])
            }
            "dist" => json!([fx(p(0).distance_to(p(2)))]),
            "lerp" => {
                let r = interpolate(p(0), p(2), a[4] / 4.0);
                json!([fx(r.x), fx(r.y)])
            }
            o => panic!("bad query {}", o),
        });
        res.push(json!({"oc":oc,"r":if oc=="ok" {v} else {json!([])}}));
    }
    json!({ "rs": res })
}

fn obs(p: &Position, unit: f64) -> Value {
    let fx = |v: f64| fx(v / unit);
    let b = p.bbox(false);
    let o = p.bbox(true);
    let c = p.center();
    let m = p.middle();
    let s = p.size(false);
    let t = p.size(true);
    json!({"b":[fx(b.0.x),fx(b.0.y),fx(b.1.x),fx(b.1.y)],
           "o":[fx(o.0.x),fx(o.0.y),fx(o.1.x),fx(o.1.y)],
           "c":[fx(c.x),fx(c.y)],"m":[fx(m.x),fx(m.y)],
           "s":[fx(s.x),fx(s.y)],"t":[fx(t.x),fx(t.y)],
           "lr":[fx(p.left(false)),fx(p.right(false)),fx(p.left(true)),fx(p.right(true))],
           "tb":[fx(p.top(false)),fx(p.bottom(false)),fx(p.top(true)),fx(p.bottom(true))],
           "d":[fx(p.distance_to_left(false)),fx(p.distance_to_right(false)),
                fx(p.distance_to_left(true)),fx(p.distance_to_right(true))]})
}

/// A history of operations on one Position. Lengths are whole multiples of the
/// unit, and so are the answers (with three decimals).
pub fn pos(case: &Value) -> Value {
    let i = &case["init"];
    let unit = case["unit"].as_f64().unwrap_or(1.0);
    let f = |v: &Value| v.as_i64().unwrap() as f64 * unit;
    let pt = |v: &Value| Point::new(f(&v[0]), f(&v[1]));
    let mut p = Position::new(pt(&i["m"]), pt(&i["s"]), pt(&i["c"]), pt(&i["h"]));
    let mut steps = vec![json!({"oc":"ok","obs":obs(&p, unit),"in":false})];
    for op in case["ops"].as_array().unwrap() {
        let a = &op["a"];
        let mut inr = false;
        let (oc, _, _) = guarded(|| {
            match op["o"].as_str().unwrap() {
                "move" => p.move_to(pt(a)),
                "top" => p.align_to_top(f(&a[0])),
                "left" => p.align_to_left(f(&a[0])),
                "right" => p.align_to_right(f(&a[0])),
                "alignx" => p.align_x(f(&a[0]), f(&a[1]) != 0.0),
                "trans" => p.translate(pt(a)),
                "setx" => p.set_x(f(&a[0])),
                "sety" => p.set_y(f(&a[0])),
                "size" => p.set_size(pt(a)),
                "center" => p.set_new_center_point(pt(a)),
                "flip" => p.transpose(),
                "inr" => inr = p.in_x_range((f(&a[0]), f(&a[1])), f(&a[2]) != 0.0),
                o => panic!("bad op {}", o),
            }
            json!({})
        });
        steps.push(json!({"oc":oc,"obs":obs(&p, unit),"in":inr}));
        if oc != "ok" {
            break;
        }
    }
    json!({ "steps": steps })
}
