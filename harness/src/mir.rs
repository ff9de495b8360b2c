//! Histories of one document: every step, and all that can be read from the document after it.
use crate::util::*;
use seiren::color::{RGBColor, WebColor};
use seiren::geometry::{Orientation, Point, Size};
use seiren::mir::*;
use serde_json::{json, Value};

fn f(v: i64) -> f32 {
    (v as f64 / SCALE) as f32
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

fn points(s: &Value) -> Option<Vec<Point>> {
    let p: Vec<Point> = s["pts"].as_array().unwrap().iter().map(|p| ints(p)).map(|p| Point::new(f(p[0]), f(p[1]))).collect();
    if ints(&s["v"]).is_empty() { None } else { Some(p) }
}

fn dump(doc: &Document, nodes: &[NodeId], edges: &[EdgeId], fill: &[NodeId]) -> Value {
    let of = |id: NodeId| nodes.iter().position(|x| *x == id).map(|i| i + 1).unwrap_or(0);
    let mut nports = 0;
    let ns: Vec<Value> = nodes
        .iter()
        .map(|id| {
            let n = doc.get_node(*id).unwrap();
            let (kind, said) = match n.kind() {
                ShapeKind::Body(_) => ("body", json!([])),
                ShapeKind::Record(r) => (
                    "record",
                    match &r.bg_color {
                        None => json!([]),
                        Some(WebColor::RGB(c)) => json!([c.red, c.green, c.blue]),
                        Some(WebColor::Named(_)) => json!([-1]),
                    },
                ),
                ShapeKind::Field(f) => ("field", cps(&f.title.text)),
            };
            let ports = crate::doc::ports(n);
            let ports: Vec<Value> = ports
                .as_array()
                .unwrap()
                .iter()
                .zip(n.terminal_ports())
                .map(|(v, t)| {
                    let mut v = v.clone();
                    v["id"] = json!(t.id().to_string());
                    v
                })
                .collect();
            nports += ports.len();
            json!({
                "id": id.to_string(), "kind": kind, "said": said,
                "at": n.origin.map(|p| json!([num(p.x), num(p.y)])).unwrap_or(json!([])),
                "size": n.size.map(|s| json!([num(s.width), num(s.height)])).unwrap_or(json!([])),
                "rect": crate::doc::rect(n.rect()),
                "kids": n.children().map(of).collect::<Vec<_>>(),
                "nkids": n.children().len(),
                "ports": ports,
            })
        })
        .collect();
    let es: Vec<Value> = doc
        .edge_ids()
        .zip(doc.edges())
        .map(|(id, e)| {
            let (a, b) = doc.edge_endpoints(id).unwrap();
            json!({
                "a": of(e.source_id()), "b": of(e.target_id()), "ga": of(a), "gb": of(b),
                "some": e.path_points().is_some(),
                "pts": e.path_points().unwrap_or(&[]).iter().map(crate::doc::pt).collect::<Vec<_>>(),
            })
        })
        .collect();
    let more = fill.iter().enumerate().filter(|(i, id)| match doc.get_node(**id) {
        Some(n) => {
            let text = matches!(n.kind(), ShapeKind::Field(f) if f.title.text == format!("m{i}"));
            text && n.children().len() == 0 && n.terminal_ports().next().is_none() && n.origin.is_none() && n.size.is_none()
        }
        None => false,
    });
    let more = more.count();
    let distinct = nodes.iter().chain(fill).collect::<std::collections::HashSet<_>>().len();
    let same = doc.edge_ids().collect::<Vec<_>>() == edges;
    json!({"nodes": ns, "nports": nports, "body": doc.body().children().map(of).collect::<Vec<_>>(), "edges": es, "fresh": same, "more": more, "distinct": distinct})
}

pub fn run(case: &Value) -> Value {
    let mut doc = Document::new();
    let mut nodes: Vec<NodeId> = vec![];
    let mut edges: Vec<EdgeId> = vec![];
    let mut fill: Vec<NodeId> = vec![];
    let mut out = vec![];
    for s in case["hist"].as_array().unwrap() {
        let (a, b) = (s["a"].as_u64().unwrap() as usize, s["b"].as_u64().unwrap() as usize);
        let res = guard(|| {
            let mut good = true;
            match s["op"].as_str().unwrap() {
                "record" => {
                    let v = ints(&s["v"]);
                    let c = if v.is_empty() { None } else { Some(WebColor::RGB(RGBColor::new(v[0] as u8, v[1] as u8, v[2] as u8))) };
                    nodes.push(doc.create_record(RecordShapeBuilder::default().bg_color(c).build().unwrap()));
                }
                "field" => {
                    let t = TextSpanBuilder::default().text(from_cps(&s["v"])).build().unwrap();
                    nodes.push(doc.create_field(FieldShapeBuilder::default().title(t).build().unwrap()));
                }
                "fill" => {
                    for _ in 0..s["v"][0].as_u64().unwrap() {
                        let t = TextSpanBuilder::default().text(format!("m{}", fill.len())).build().unwrap();
                        fill.push(doc.create_field(FieldShapeBuilder::default().title(t).build().unwrap()));
                    }
                }
                "child" => {
                    let n = if a == 0 { doc.body_mut() } else { doc.get_node_mut(nodes[a - 1]).unwrap() };
                    n.append_child(nodes[b - 1]);
                }
                "edge" => {
                    let e = doc.add_edge(EdgeData::new(nodes[a - 1], nodes[b - 1], points(s)));
                    good = doc.edge(e).map(|d| d.source_id() == nodes[a - 1] && d.target_id() == nodes[b - 1]) == Some(true);
                    edges.push(e);
                }
                "path" => doc.edges_mut().nth(a - 1).unwrap().set_path_points(points(s)),
                "at" => doc.get_node_mut(nodes[a - 1]).unwrap().origin = ints(&s["v"]).get(..2).map(|v| Point::new(f(v[0]), f(v[1]))),
                "size" => doc.get_node_mut(nodes[a - 1]).unwrap().size = ints(&s["v"]).get(..2).map(|v| Size::new(f(v[0]), f(v[1]))),
                "port" => {
                    let v = ints(&s["v"]);
                    let d = [Orientation::Up, Orientation::Right, Orientation::Down, Orientation::Left][b - 1];
                    let n = doc.get_node_mut(nodes[a - 1]).unwrap();
                    let id = n.add_terminal_port(nodes[a - 1], Point::new(f(v[0]), f(v[1])), d);
                    good = n.terminal_ports().last().map(|t| t.id()) == Some(id);
                }
                "clear" => doc.get_node_mut(nodes[a - 1]).unwrap().clear_terminal_ports(),
                x => panic!("step {x}"),
            }
            let mut v = dump(&doc, &nodes, &edges, &fill);
            v["fresh"] = json!(v["fresh"] == json!(true) && good);
            v
        });
        match res {
            Ok(mut v) => {
                v["panic"] = json!("");
                v["step"] = s.clone();
                out.push(v);
            }
            Err(e) => {
                out.push(json!({"panic": e, "step": s, "nodes": [], "nports": 0, "body": [], "edges": [], "fresh": false, "more": 0, "distinct": 0}));
                break;
            }
        }
    }
    json!({"steps": out})
}
