//! rectangle operations; numbers are given and returned in eighths
use crate::util::*;
use seiren::geometry::{Orientation, Path, PathCommand, Point, Rect, Size};
use serde_json::{json, Value};

/// An integer of the case as a coordinate: in eighths of 2^e.
fn f(v: &Value, e: i32, negative: bool) -> f32 {
    match (v.as_i64().unwrap() as f64 / SCALE * 2f64.powi(e)) as f32 {
        x if x == 0.0 && negative => -0.0,
        x => x,
    }
}

/// The value rounded to 1/1024, as an integer (results of divisions are not exact).
fn fine(v: f32) -> i64 {
    let s = v as f64 * 1024.0;
    if s.is_finite() && s.abs() < 1.0e9 {
        s.round() as i64
    } else {
        INEXACT
    }
}

/// {"r":[x,y,w,h], "ops":[["hit",ax,ay,bx,by],["in",x,y],["inset",dx,dy],["dir",ax,ay,bx,by]]}
pub fn run(case: &Value) -> Value {
    let e = case.get("e").and_then(|e| e.as_i64()).unwrap_or(0) as i32;
    // bit by bit, which zeros are negative
    let z = case["z"].as_u64().unwrap_or(0);
    let neg = |i: usize| z >> (i % 16) & 1 == 1;
    let r = case["r"].as_array().unwrap();
    let rc = Rect::new(
        Point::new(f(&r[0], e, neg(0)), f(&r[1], e, neg(1))),
        Size::new(f(&r[2], e, false), f(&r[3], e, false)),
    );
    // powers of two: exact
    let fine = |v: f32| fine((v as f64 * 2f64.powi(-e)) as f32);
    let num = |v: f32| num((v as f64 * 2f64.powi(-e)) as f32);
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let a = op.as_array().unwrap();
        let v: Vec<f32> = a[1..].iter().enumerate().map(|(i, v)| f(v, e, neg(i + 2))).collect();
        let ints: Vec<i64> = a[1..].iter().map(|x| x.as_i64().unwrap()).collect();
        let kind = a[0].as_str().unwrap();
        let res = guard(|| match kind {
            "hit" => {
                let (p, q) = (Point::new(v[0], v[1]), Point::new(v[2], v[3]));
                let seg = rc.intersected_line(&p, &q);
                json!({
                    "hit": rc.intersects_line(&p, &q),
                    "seg": seg.map(|(s, t)| vec![fine(s.x), fine(s.y), fine(t.x), fine(t.y)]).unwrap_or_default(),
                })
            }
            "in" => json!({"in": rc.contains_point(&Point::new(v[0], v[1]))}),
            "inset" => {
                let i = rc.inset_by(v[0], v[1]);
                json!({"rect": [num(i.min_x()), num(i.min_y()), num(i.width()), num(i.height())]})
            }
            "dist" => {
                let (p, q) = (Point::new(v[0], v[1]), Point::new(v[2], v[3]));
                json!({"dist": fine(p.distance(&q)), "back": fine(q.distance(&p))})
            }
            // how much further than along the longer side, in 1/256
            "far" => {
                let (p, q) = (Point::new(v[0], v[1]), Point::new(v[2], v[3]));
                let m = (ints[0] - ints[2]).abs().max((ints[1] - ints[3]).abs()) as f64;
                let e = |d: f32| ((d as f64 * 2f64.powi(-e) * SCALE - m) * 256.0).round() as i64;
                json!({"more": e(p.distance(&q)), "back": e(q.distance(&p))})
            }
            // start, then the commands: 1 move, 2 line, 3 curve, with their points
            "path" => {
                let mut path = Path::new(Point::new(v[0], v[1]));
                let mut i = 2;
                while i < v.len() {
                    let p = Point::new(v[i + 1], v[i + 2]);
                    match ints[i] {
                        1 => path.move_to(p),
                        2 => path.line_to(p),
                        _ => path.quad_to(p, Point::new(v[i + 3], v[i + 4])),
                    }
                    i += if ints[i] == 3 { 5 } else { 3 };
                }
                let mut flat = vec![];
                let mut put = |k: i64, ps: &[&Point]| {
                    flat.push(k);
                    for p in ps {
                        flat.extend([num(p.x), num(p.y)]);
                    }
                };
                for c in path.commands() {
                    match c {
                        PathCommand::MoveTo(p) => put(1, &[p]),
                        PathCommand::LineTo(p) => put(2, &[p]),
                        PathCommand::QuadTo(c, p) => put(3, &[c, p]),
                    }
                }
                let (s, e) = (path.start_point(), path.end_point());
                json!({"flat": flat, "n": path.commands().len(), "start": [num(s.x), num(s.y)], "end": [num(e.x), num(e.y)]})
            }
            "dir" => json!({"dir": match Point::new(v[0], v[1]).orthogonal_direction(&Point::new(v[2], v[3])) {
                Orientation::Up => "U", Orientation::Down => "D", Orientation::Left => "L", Orientation::Right => "R" }}),
            _ => panic!("op"),
        });
        out.push(match res {
            Ok(v) => json!({"k": kind, "arg": ints, "panic": "", "res": v}),
            Err(e) => json!({"k": kind, "arg": ints, "panic": e, "res": {}}),
        });
    }
    json!({"r": case["r"], "ops": out,
           "sides": [fine(rc.min_x()), fine(rc.mid_x()), fine(rc.max_x()), fine(rc.min_y()), fine(rc.mid_y()), fine(rc.max_y()),
                     fine(rc.width()), fine(rc.height()), fine(rc.center().x), fine(rc.center().y),
                     fine(rc.origin().x), fine(rc.origin().y), fine(rc.size().width), fine(rc.size().height)]})
}
