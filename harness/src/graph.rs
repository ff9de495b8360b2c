//! Histories of one route graph: every step, what it answers, and all that can be read after it.
use crate::util::*;
use seiren::geometry::{Orientation, Point};
use seiren::layout::{RouteGraph, RouteNodeId};
use seiren::mir::{Document, FieldShapeBuilder, TerminalPort, TerminalPortId, TextSpanBuilder};
use seiren::renderer::{Renderer, SVGRenderer};
use serde_json::{json, Value};

const SIDES: [Orientation; 4] = [Orientation::Up, Orientation::Right, Orientation::Down, Orientation::Left];

fn place(v: &Value, z: &Value) -> Point {
    // bit by bit, whether a zero is negative
    let z = z.as_i64().unwrap_or(0);
    let f = |i: usize| match (v[i].as_i64().unwrap() as f64 / SCALE) as f32 {
        x if x == 0.0 && z >> i & 1 == 1 => -0.0,
        x => x,
    };
    Point::new(f(0), f(1))
}

fn dump(g: &mut RouteGraph, ports: &[TerminalPortId]) -> Value {
    let ids: Vec<RouteNodeId> = g.node_ids().collect();
    let of = |id: RouteNodeId| ids.iter().position(|x| *x == id).map(|i| i + 1).unwrap_or(0);
    let nodes: Vec<Value> = ids
        .iter()
        .zip(g.nodes())
        .map(|(id, other)| {
            let n = g.get_node(*id).unwrap();
            let same = n.location() == other.location() && n.orientation() == other.orientation();
            json!({
                "id": if same { id.to_string() } else { "another node".to_string() },
                "at": crate::doc::pt(n.location()),
                "d": match n.orientation() {
                    None => "",
                    Some(Orientation::Up) => "U",
                    Some(Orientation::Right) => "R",
                    Some(Orientation::Down) => "D",
                    Some(Orientation::Left) => "L",
                },
                "open": SIDES.iter().map(|d| n.is_connectable(*d)).collect::<Vec<_>>(),
            })
        })
        .collect();
    let links: Vec<Value> = g.edges().map(|e| json!([of(e.source_id()), of(e.target_id())])).collect();
    let ports: Vec<usize> = ports.iter().map(|p| g.get_terminal_port(*p).map(of).unwrap_or(0)).collect();
    let all = g.nodes().count();
    json!({"nodes": nodes, "links": links, "ports": ports, "all": all, "links2": g.edges_mut().count()})
}

pub fn run(case: &Value) -> Value {
    // Connection points have numbers of their own; any document yields some.
    let mut doc = Document::new();
    let mut ids: Vec<TerminalPortId> = vec![];
    for _ in 0..2 {
        let t = TextSpanBuilder::default().text("x".to_string()).build().unwrap();
        let n = doc.create_field(FieldShapeBuilder::default().title(t).build().unwrap());
        for d in [Orientation::Up, Orientation::Left] {
            ids.push(doc.get_node_mut(n).unwrap().add_terminal_port(n, Point::zero(), d));
        }
    }
    let mut g = RouteGraph::new();
    let mut kept = RouteGraph::new();
    let mut out = vec![];
    let hist = case["hist"].as_array().unwrap();
    for (i, s) in hist.iter().enumerate() {
        let (a, b) = (s["a"].as_u64().unwrap() as usize, s["b"].as_u64().unwrap() as usize);
        let last = i + 1 == hist.len();
        let res = guard(|| {
            let mut answer: Option<RouteNodeId> = None;
            match s["op"].as_str().unwrap() {
                "node" => answer = Some(g.add_node(place(&s["v"], &s["z"]))),
                "port" => answer = Some(g.add_terminal_port(&TerminalPort::new(ids[a - 1], place(&s["v"], &s["z"]), SIDES[b - 1]))),
                "link" => {
                    let nodes: Vec<RouteNodeId> = g.node_ids().collect();
                    g.add_edge(nodes[a - 1], nodes[b - 1]);
                }
                "fork" => {
                    let copy = g.clone();
                    kept = std::mem::replace(&mut g, copy);
                }
                x => panic!("step {x}"),
            }
            let answer = match answer {
                None => 0,
                Some(id) => g.node_ids().position(|x| x == id).map(|i| i + 1).unwrap_or(usize::MAX >> 40),
            };
            let graph = dump(&mut g, &ids);
            let level = g.edges().all(|e| {
                let p = g.get_node(e.source_id()).unwrap().location();
                let q = g.get_node(e.target_id()).unwrap().location();
                p.x == q.x || p.y == q.y
            });
            let mut svg: Vec<u8> = vec![];
            if last && level {
                let mut r = SVGRenderer::new();
                r.edge_route_graph = Some(&g);
                r.render(&Document::new(), &mut svg).expect("nothing is missing");
            }
            json!({"answer": answer, "graph": graph, "kept": dump(&mut kept, &ids),
                   "over": {"drawn": last && level, "svg": String::from_utf8(svg).unwrap()}})
        });
        match res {
            Ok(mut v) => {
                v["panic"] = json!("");
                v["step"] = s.clone();
                out.push(v);
            }
            Err(e) => {
                out.push(json!({"panic": e, "step": s}));
                break;
            }
        }
    }
    json!({"steps": out})
}
