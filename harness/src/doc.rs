//! module -> document -> layout -> routes -> SVG
use crate::util::*;
use seiren::evcxr::{draw_erd, CustomDisplay};
use seiren::geometry::{Orientation, Point, Rect, Size};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir::{Document, NodeData, NodeId, ShapeKind, TextSpan};
use seiren::renderer::{Renderer, SVGRenderer};
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn pt(p: &Point) -> Value {
    json!([num(p.x), num(p.y)])
}

pub fn rect(r: Option<Rect>) -> Value {
    match r {
        None => json!([]),
        Some(r) => json!([num(r.min_x()), num(r.min_y()), num(r.width()), num(r.height())]),
    }
}

fn dir(o: Orientation) -> &'static str {
    match o {
        Orientation::Up => "U",
        Orientation::Down => "D",
        Orientation::Left => "L",
        Orientation::Right => "R",
    }
}

pub fn ports(n: &NodeData) -> Value {
    Value::Array(
        n.terminal_ports()
            .map(|t| json!({"x": num(t.location().x), "y": num(t.location().y), "d": dir(t.orientation())}))
            .collect(),
    )
}

fn span(t: &TextSpan) -> Value {
    json!({"text": cps(&t.text), "color": t.color.as_ref().map(|c| c.to_string()).unwrap_or_default()})
}

/// Node references: [box] or [box, row], both from 1; [0] for anything else.
pub fn refs(doc: &Document) -> HashMap<NodeId, Value> {
    let mut m = HashMap::new();
    for (i, b) in doc.body().children().enumerate() {
        m.entry(b).or_insert(json!([i + 1]));
        if let Some(n) = doc.get_node(b) {
            for (j, r) in n.children().enumerate() {
                m.entry(r).or_insert(json!([i + 1, j + 1]));
            }
        }
    }
    m
}

fn content(doc: &Document) -> Value {
    let boxes: Vec<Value> = doc
        .body()
        .children()
        .map(|b| {
            let n = doc.get_node(b).unwrap();
            let kind = match n.kind() {
                ShapeKind::Record(_) => "record",
                ShapeKind::Field(_) => "field",
                ShapeKind::Body(_) => "body",
            };
            let rows: Vec<Value> = n
                .children()
                .map(|r| {
                    let n = doc.get_node(r).unwrap();
                    match n.kind() {
                        ShapeKind::Field(f) => json!({
                            "kids": n.children().len(),
                            "title": span(&f.title),
                            "sub": f.subtitle.iter().map(span).collect::<Vec<_>>(),
                            "badge": f.badge.iter().map(|b| json!({
                                "text": cps(&b.text),
                                "color": b.color.as_ref().map(|c| c.to_string()).unwrap_or_default(),
                                "bg": b.bg_color.as_ref().map(|c| c.to_string()).unwrap_or_default(),
                            })).collect::<Vec<_>>(),
                        }),
                        _ => json!({"kids": -1, "title": {"text": [], "color": ""}, "sub": [], "badge": []}),
                    }
                })
                .collect();
            json!({"kind": kind, "rows": rows})
        })
        .collect();
    let m = refs(doc);
    let get = |id: NodeId| m.get(&id).cloned().unwrap_or(json!([0]));
    let edges: Vec<Value> = doc
        .edge_ids()
        .map(|e| {
            let d = doc.edge(e).unwrap();
            let (s, t) = doc.edge_endpoints(e).unwrap();
            json!({
                "a": get(d.source_id()), "b": get(d.target_id()),
                // the graph must agree with the edge's own ends
                "ga": get(s), "gb": get(t),
            })
        })
        .collect();
    json!({"boxes": boxes, "edges": edges})
}

pub fn geometry(doc: &Document) -> Value {
    Value::Array(
        doc.body()
            .children()
            .map(|b| {
                let n = doc.get_node(b).unwrap();
                json!({
                    "rect": rect(n.rect()),
                    "ports": ports(n),
                    "rows": n.children().map(|r| {
                        let n = doc.get_node(r).unwrap();
                        json!({"rect": rect(n.rect()), "ports": ports(n)})
                    }).collect::<Vec<_>>(),
                })
            })
            .collect(),
    )
}

pub fn routes(doc: &Document) -> Value {
    Value::Array(
        doc.edges()
            .map(|e| match e.path_points() {
                None => json!({"some": false, "pts": []}),
                Some(p) => json!({"some": true, "pts": p.iter().map(pt).collect::<Vec<_>>()}),
            })
            .collect(),
    )
}

fn graph(g: &RouteGraph) -> Value {
    json!({
        "nodes": g.node_ids().map(|i| pt(g.get_node(i).unwrap().location())).collect::<Vec<_>>(),
        "edges": g.edges().map(|e| json!([
            pt(g.get_node(e.source_id()).unwrap().location()),
            pt(g.get_node(e.target_id()).unwrap().location())])).collect::<Vec<_>>(),
        "boxes": 0,
    })
}

/// The route graph in full: nodes with the side they face ("" for a junction), connections as pairs
/// of nodes (from 1), and the node of every connection point of the ends of the edges.
pub fn channels(g: &RouteGraph, doc: &Document) -> Value {
    let ids: Vec<_> = g.node_ids().collect();
    let of = |id| ids.iter().position(|x| *x == id).map(|i| i + 1).unwrap_or(0);
    let end = |id: NodeId| -> Value {
        doc.get_node(id).unwrap().terminal_ports().map(|t| json!(g.get_terminal_port(t.id()).map(of).unwrap_or(0))).collect()
    };
    json!({
        "nodes": ids.iter().map(|i| pt(g.get_node(*i).unwrap().location())).collect::<Vec<_>>(),
        "sides": ids.iter().map(|i| g.get_node(*i).unwrap().orientation().map(dir).unwrap_or("")).collect::<Vec<_>>(),
        "links": g.edges().map(|e| json!([of(e.source_id()), of(e.target_id())])).collect::<Vec<_>>(),
        "ends": doc.edges().map(|e| json!([end(e.source_id()), end(e.target_id())])).collect::<Vec<_>>(),
    })
}

/// The view box a case hands to the renderer in place of the engine's.
fn handed(case: &Value) -> Option<Option<Rect>> {
    let v: Vec<f32> = case.get("view")?.as_array()?.iter().map(|n| n.as_i64().unwrap_or(0) as f32 / 8.0).collect();
    Some(if v.is_empty() { None } else { Some(Rect::new(Point::new(v[0], v[1]), Size::new(v[2], v[3]))) })
}

/// Runs the stages one by one; a stage that panics ends the case with `panic` = its name.
pub fn run(case: &Value) -> Value {
    let module = module_from(&case["mod"]);
    let mut o = json!({"mod": case["mod"], "panic": "", "msg": ""});
    let fail = |o: &mut Value, stage: &str, msg: String| {
        o["panic"] = json!(stage);
        o["msg"] = json!(msg);
    };

    let doc = match guard(|| module.into_mir()) {
        Ok(d) => d,
        Err(e) => {
            fail(&mut o, "resolve", e);
            return o;
        }
    };
    let mut doc = doc;
    match guard(|| content(&doc)) {
        Ok(c) => o["content"] = c,
        Err(e) => {
            fail(&mut o, "resolve", e);
            return o;
        }
    }

    let mut engine = SimpleLayoutEngine::new();
    // the engine may have laid out another document
    if let Some(m) = case.get("before") {
        if let Err(e) = guard(|| {
            let mut doc = module_from(m).into_mir();
            engine.place_nodes(&mut doc);
            engine.place_terminal_ports(&mut doc);
            engine.draw_edge_path(&mut doc);
        }) {
            fail(&mut o, "place", e);
            return o;
        }
    }
    // the phases may have been run before, on this very document
    for _ in 0..case.get("again").and_then(|n| n.as_u64()).unwrap_or(0) {
        if let Err(e) = guard(|| {
            engine.place_nodes(&mut doc);
            engine.place_terminal_ports(&mut doc);
            engine.draw_edge_path(&mut doc);
        }) {
            fail(&mut o, "place", e);
            return o;
        }
    }
    let vb = match guard(|| engine.place_nodes(&mut doc)) {
        Ok(v) => v,
        Err(e) => {
            fail(&mut o, "place", e);
            return o;
        }
    };
    o["vb"] = rect(vb);
    o["geo"] = geometry(&doc);
    if let Err(e) = guard(|| engine.place_terminal_ports(&mut doc)) {
        fail(&mut o, "ports", e);
        return o;
    }
    o["geo"] = geometry(&doc);
    if let Err(e) = guard(|| engine.draw_edge_path(&mut doc)) {
        fail(&mut o, "route", e);
        return o;
    }
    o["routes"] = routes(&doc);
    if case.get("channels").is_some() {
        match guard(|| channels(engine.edge_route_graph(), &doc)) {
            Ok(g) => o["channels"] = g,
            Err(e) => {
                fail(&mut o, "route", e);
                return o;
            }
        }
    }

    let render = |overlay: bool, view: Option<Rect>| {
        guard(|| {
            let mut r = SVGRenderer::new();
            r.view_box = view;
            if overlay {
                r.edge_route_graph = Some(engine.edge_route_graph());
            }
            let mut bytes: Vec<u8> = vec![];
            r.render(&doc, &mut bytes).map(|_| bytes).map_err(|e| e.to_string())
        })
    };
    let vb = handed(case).unwrap_or(vb);
    o["shown"] = rect(vb);
    match render(false, vb) {
        Ok(Ok(b)) => o["svg"] = json!(String::from_utf8_lossy(&b)),
        Ok(Err(e)) => {
            o["svg"] = json!("");
            o["msg"] = json!(e)
        }
        Err(e) => {
            fail(&mut o, "render", e);
            return o;
        }
    }
    if case.get("overlay").is_some() {
        match render(true, vb) {
            Ok(Ok(b)) => o["overlay"] = json!(String::from_utf8_lossy(&b)),
            Ok(Err(e)) => {
                o["overlay"] = json!("");
                o["msg"] = json!(e)
            }
            Err(e) => {
                fail(&mut o, "overlay", e);
                return o;
            }
        }
        match guard(|| graph(engine.edge_route_graph())) {
            Ok(g) => o["graph"] = g,
            Err(e) => fail(&mut o, "overlay", e),
        }
        // numbers shown for the boxes
        let ids: Vec<String> = doc.body().children().map(|c| c.to_string()).collect();
        o["ids"] = json!(ids);
        let ids: Vec<String> = engine.edge_route_graph().node_ids().map(|c| c.to_string()).collect();
        o["jids"] = json!(ids);
    }
    o
}

/// Prints one case: a header line with what rendering gives, then what the display prints.
pub fn notebook(case: &Value) {
    let mut doc = module_from(&case["mod"]).into_mir();
    let mut engine = SimpleLayoutEngine::new();
    let vb = engine.place_nodes(&mut doc);
    engine.place_terminal_ports(&mut doc);
    engine.draw_edge_path(&mut doc);
    let vb = handed(case).unwrap_or(vb);
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    let mut bytes: Vec<u8> = vec![];
    r.render(&doc, &mut bytes).unwrap();
    println!("@@REF {}", json!(String::from_utf8(bytes).unwrap()));
    draw_erd(&doc, vb).evcxr_display();
    println!("@@END");
}
