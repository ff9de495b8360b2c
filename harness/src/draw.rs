//! Documents put together by hand: any styles, places and paths; rendered without an engine.
use crate::util::*;
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::error::BackendError;
use seiren::geometry::{Point, Rect, Size};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::*;
use seiren::renderer::{Renderer, SVGRenderer};
use serde_json::{json, Value};

fn list(v: &Value) -> &Vec<Value> {
    v.as_array().expect("list")
}

fn ints(v: &Value) -> Vec<i64> {
    list(v).iter().map(|x| x.as_i64().unwrap()).collect()
}

fn f(v: i64) -> f32 {
    (v as f64 / SCALE) as f32
}

/// [] none, [-1] white, [-2] black, [r, g, b]
fn color(v: &Value) -> Option<WebColor> {
    match ints(v)[..] {
        [] => None,
        [-1] => Some(WebColor::Named(NamedColor::White)),
        [-2] => Some(WebColor::Named(NamedColor::Black)),
        [r, g, b] => Some(WebColor::RGB(RGBColor::new(r as u8, g as u8, b as u8))),
        _ => panic!("colour"),
    }
}

fn family(s: &str) -> Option<FontFamily> {
    Some(match s {
        "" => return None,
        "SansSerif1" => FontFamily::SansSerif1,
        "SansSerif2" => FontFamily::SansSerif2,
        "SansSerif3" => FontFamily::SansSerif3,
        "Monospace1" => FontFamily::Monospace1,
        "Monospace2" => FontFamily::Monospace2,
        _ => panic!("family"),
    })
}

fn weight(s: &str) -> Option<FontWeight> {
    Some(match s {
        "" => return None,
        "normal" => FontWeight::Normal,
        "bold" => FontWeight::Bold,
        "lighter" => FontWeight::Lighter,
        "bolder" => FontWeight::Bolder,
        _ => panic!("weight"),
    })
}

fn size(s: &str) -> Option<FontSize> {
    Some(match s {
        "" => return None,
        "xx-small" => FontSize::XXSmall,
        "x-small" => FontSize::XSmall,
        "small" => FontSize::Small,
        "medium" => FontSize::Medium,
        "large" => FontSize::Large,
        "x-large" => FontSize::XLarge,
        "xx-large" => FontSize::XXLarge,
        "xxx-large" => FontSize::XXXLarge,
        _ => panic!("size"),
    })
}

fn span(v: &Value) -> TextSpan {
    let w = |k: &str| v["font"][k].as_str().unwrap();
    TextSpanBuilder::default()
        .text(from_cps(&v["text"]))
        .color(color(&v["color"]))
        .font_family(family(w("family")))
        .font_weight(weight(w("weight")))
        .font_size(size(w("size")))
        .build()
        .unwrap()
}

fn row(v: &Value) -> FieldShape {
    let badge = list(&v["badge"]).first().map(|b| {
        BadgeBuilder::default()
            .text(from_cps(&b["text"]))
            .color(color(&b["color"]))
            .bg_color(color(&b["bg"]))
            .build()
            .unwrap()
    });
    FieldShapeBuilder::default()
        .title(span(&v["title"]))
        .subtitle(list(&v["sub"]).first().map(span))
        .badge(badge)
        .bg_color(color(&v["bg"]))
        .border_color(color(&v["border"]))
        .build()
        .unwrap()
}

fn place(n: &mut NodeData, v: &Value) {
    let (o, s) = (ints(&v["at"]), ints(&v["size"]));
    if !o.is_empty() {
        n.origin = Some(Point::new(f(o[0]), f(o[1])));
    }
    if !s.is_empty() {
        n.size = Some(Size::new(f(s[0]), f(s[1])));
    }
}

pub fn build(case: &Value) -> Document {
    let mut doc = Document::new();
    let late = case["late"] == json!(true);
    let mut nodes: Vec<NodeId> = vec![];
    let record = |doc: &mut Document, b: &Value| {
        let r = RecordShapeBuilder::default()
            .rounded(true)
            .bg_color(color(&b["bg"]))
            .border_color(color(&b["border"]))
            .build()
            .unwrap();
        doc.create_record(r)
    };
    if late {
        // the boxes first, then the rows
        nodes = list(&case["boxes"]).iter().map(|b| record(&mut doc, b)).collect();
    }
    for (i, b) in list(&case["boxes"]).iter().enumerate() {
        let mut rows = vec![];
        for r in list(&b["rows"]) {
            let id = doc.create_field(row(r));
            place(doc.get_node_mut(id).unwrap(), r);
            rows.push(id);
        }
        if !late {
            nodes.push(record(&mut doc, b));
        }
        let n = doc.get_node_mut(nodes[i]).unwrap();
        place(n, b);
        for r in rows {
            n.append_child(r);
        }
        doc.body_mut().append_child(nodes[i]);
    }
    let node = |doc: &Document, v: &Value| {
        let a = ints(v);
        let b = nodes[a[0] as usize - 1];
        if a.len() == 1 {
            b
        } else {
            doc.get_node(b).unwrap().children().nth(a[1] as usize - 1).unwrap()
        }
    };
    for e in list(&case["edges"]) {
        let pts: Vec<Point> = list(&e["pts"])
            .iter()
            .map(|p| {
                let p = ints(p);
                Point::new(f(p[0]), f(p[1]))
            })
            .collect();
        let (a, b) = (node(&doc, &e["a"]), node(&doc, &e["b"]));
        doc.add_edge(EdgeData::new(a, b, if pts.is_empty() { None } else { Some(pts) }));
    }
    doc
}

pub fn run(case: &Value) -> Value {
    let mut o = json!({"panic": "", "res": "", "who": [], "len": 0, "svg": ""});
    let res = guard(|| {
        let doc = build(case);
        let mut r = SVGRenderer::new();
        let v = ints(&case["view"]);
        if !v.is_empty() {
            r.view_box = Some(Rect::new(Point::new(f(v[0]), f(v[1])), Size::new(f(v[2]), f(v[3]))));
        }
        let mut bytes: Vec<u8> = vec![];
        let res = r.render(&doc, &mut bytes);
        o["len"] = json!(bytes.len());
        match res {
            Ok(()) => o["res"] = json!("ok"),
            Err(BackendError::InvalidLayout(id)) => {
                o["res"] = json!("layout");
                o["who"] = crate::doc::refs(&doc).get(&id).cloned().unwrap_or(json!([0]));
            }
            Err(_) => o["res"] = json!("error"),
        }
        o["svg"] = json!(String::from_utf8_lossy(&bytes));
    });
    if let Err(e) = res {
        o["panic"] = json!(e);
    }
    o
}

/// Connection points of documents placed by hand: placed `times` times, then, if there are `moves`
/// (box, place, size), once more after the boxes went there.
pub fn ports(case: &Value) -> Value {
    let mut o = json!({"panic": "", "geo": [], "again": []});
    let res = guard(|| {
        let mut doc = build(case);
        let mut engine = SimpleLayoutEngine::new();
        for _ in 0..case["times"].as_u64().unwrap() {
            engine.place_terminal_ports(&mut doc);
        }
        o["geo"] = crate::doc::geometry(&doc);
        for m in list(&case["moves"]) {
            let b = doc.body().children().nth(m["box"].as_u64().unwrap() as usize - 1).unwrap();
            let row = m["row"].as_u64().unwrap() as usize;
            let id = if row == 0 { b } else { doc.get_node(b).unwrap().children().nth(row - 1).unwrap() };
            place(doc.get_node_mut(id).unwrap(), m);
        }
        engine.place_terminal_ports(&mut doc);
        o["again"] = crate::doc::geometry(&doc);
    });
    if let Err(e) = res {
        o["panic"] = json!(e);
    }
    o
}

/// Routes in documents put together by hand.  `rounds` is a list of changes (places of boxes, edges
/// to add), each followed by the layout phases it asks for; what is written down is the last state.
/// A box is {at, size, rows}: its rows share its height.
pub fn roads(case: &Value) -> Value {
    let mut o = json!({"panic": "", "geo": [], "vb": [], "routes": [], "channels": {"nodes": [], "sides": [], "links": [], "ends": []}});
    let res = guard(|| {
        let mut doc = Document::new();
        let mut nodes: Vec<NodeId> = vec![];
        let mut engine = SimpleLayoutEngine::new();
        let span = |s: &str| TextSpanBuilder::default().text(s).build().unwrap();
        for round in list(&case["rounds"]) {
            for b in list(&round["boxes"]) {
                let id = doc.create_record(RecordShapeBuilder::default().build().unwrap());
                for _ in 0..b["rows"].as_u64().unwrap() {
                    let r = doc.create_field(FieldShapeBuilder::default().title(span("r")).build().unwrap());
                    doc.get_node_mut(id).unwrap().append_child(r);
                }
                doc.body_mut().append_child(id);
                nodes.push(id);
            }
            let node = |doc: &Document, v: &Value| {
                let a = ints(v);
                let b = nodes[a[0] as usize - 1];
                if a.len() == 1 { b } else { doc.get_node(b).unwrap().children().nth(a[1] as usize - 1).unwrap() }
            };
            for e in list(&round["edges"]) {
                let (a, b) = (node(&doc, &e[0]), node(&doc, &e[1]));
                doc.add_edge(EdgeData::new(a, b, None));
            }
            if round["engine"] == json!(true) {
                o["vb"] = crate::doc::rect(engine.place_nodes(&mut doc));
            }
            for p in list(&round["places"]) {
                let id = nodes[p["box"].as_u64().unwrap() as usize - 1];
                let (at, size) = (ints(&p["at"]), ints(&p["size"]));
                let rows: Vec<NodeId> = doc.get_node(id).unwrap().children().collect();
                let h = size[1] / rows.len().max(1) as i64;
                place(doc.get_node_mut(id).unwrap(), p);
                for (j, r) in rows.iter().enumerate() {
                    place(doc.get_node_mut(*r).unwrap(), &json!({"at": [at[0], at[1] + h * j as i64], "size": [size[0], h]}));
                }
            }
            if !round["vb"].is_null() {
                o["vb"] = round["vb"].clone();
            }
            engine.place_terminal_ports(&mut doc);
            o["geo"] = crate::doc::geometry(&doc);
            engine.draw_edge_path(&mut doc);
        }
        o["routes"] = crate::doc::routes(&doc);
        o["channels"] = crate::doc::channels(engine.edge_route_graph(), &doc);
    });
    if let Err(e) = res {
        o["panic"] = json!(e);
    }
    o
}
