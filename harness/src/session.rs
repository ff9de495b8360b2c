//! Histories: several documents and layout engines, phases in any order, documents edited in
//! between. After every step the complete abstract state is written down.
use crate::doc::{geometry, routes};
use crate::util::*;
use seiren::error::BackendError;
use seiren::geometry::{Point, Rect, Size};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{self, Document, NodeId};
use seiren::renderer::{Renderer, SVGRenderer};
use serde_json::{json, Value};
use std::collections::HashMap;

struct D {
    doc: Document,
    view: Option<Rect>,
}

fn text(s: &str) -> mir::TextSpan {
    mir::TextSpanBuilder::default().text(s).build().unwrap()
}

fn new_row(doc: &mut Document, s: &str) -> NodeId {
    let f = mir::FieldShapeBuilder::default().title(text(s)).build().unwrap();
    doc.create_field(f)
}

fn box_id(doc: &Document, b: usize) -> NodeId {
    doc.body().children().nth(b - 1).unwrap()
}

fn add_box(doc: &mut Document, rows: usize) {
    let ids: Vec<NodeId> = (0..rows).map(|i| new_row(doc, &format!("r{i}"))).collect();
    let rec = doc.create_record(mir::RecordShapeBuilder::default().rounded(true).build().unwrap());
    let n = doc.get_node_mut(rec).unwrap();
    for i in ids {
        n.append_child(i);
    }
    doc.body_mut().append_child(rec);
}

fn resolve(doc: &Document, r: &Value) -> NodeId {
    let a = r.as_array().unwrap();
    let b = box_id(doc, a[0].as_u64().unwrap() as usize);
    if a.len() == 1 {
        b
    } else {
        doc.get_node(b).unwrap().children().nth(a[1].as_u64().unwrap() as usize - 1).unwrap()
    }
}

fn build(c: &Value) -> D {
    let mut doc = Document::new();
    for n in c["boxes"].as_array().unwrap() {
        add_box(&mut doc, n.as_u64().unwrap() as usize);
    }
    for e in c["edges"].as_array().unwrap() {
        let (a, b) = (resolve(&doc, &e[0]), resolve(&doc, &e[1]));
        doc.add_edge(mir::EdgeData::new(a, b, None));
    }
    D { doc, view: None }
}

/// {"hist":[{"docs":[{boxes,edges}…], "engines":n, "ops":[[…]…]}…]}
pub fn run(case: &Value) -> Value {
    let mut pictures: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut out = vec![];
    for h in case["hist"].as_array().unwrap() {
        let mut docs: Vec<D> = h["docs"].as_array().unwrap().iter().map(build).collect();
        let mut engines: Vec<SimpleLayoutEngine> =
            (0..h["engines"].as_u64().unwrap()).map(|_| SimpleLayoutEngine::new()).collect();
        let mut steps = vec![];
        for op in h["ops"].as_array().unwrap() {
            let o = op.as_array().unwrap();
            let kind = o[0].as_str().unwrap();
            let di = o[1].as_u64().unwrap() as usize - 1;
            let d = &mut docs[di];
            let mut step = json!({"op": kind, "d": di + 1, "panic": "", "res": "", "who": [], "pic": 0, "len": 0, "vb": [], "arg": [], "e": 1});
            let res = guard(|| match kind {
                "place" | "ports" | "route" => {
                    let ei = o[2].as_u64().unwrap() as usize - 1;
                    step["e"] = json!(ei + 1);
                    let e = &mut engines[ei];
                    match kind {
                        "place" => d.view = e.place_nodes(&mut d.doc),
                        "ports" => e.place_terminal_ports(&mut d.doc),
                        _ => e.draw_edge_path(&mut d.doc),
                    }
                }
                "addbox" => {
                    step["arg"] = json!([o[2]]);
                    add_box(&mut d.doc, o[2].as_u64().unwrap() as usize)
                }
                "addrow" => {
                    step["arg"] = json!([o[2]]);
                    let b = box_id(&d.doc, o[2].as_u64().unwrap() as usize);
                    let j = d.doc.get_node(b).unwrap().children().len();
                    let r = new_row(&mut d.doc, &format!("r{j}"));
                    d.doc.get_node_mut(b).unwrap().append_child(r);
                }
                // a place by hand: [box or row], what is given, and where
                "put" => {
                    step["arg"] = json!([o[2], o[3]]);
                    let id = resolve(&d.doc, &o[2]);
                    let v: Vec<f32> = match o.get(4) {
                        Some(v) => v.as_array().unwrap().iter().map(|x| (x.as_i64().unwrap() as f64 / SCALE) as f32).collect(),
                        None => vec![50.0, 50.0, 300.0, 35.0],
                    };
                    let n = d.doc.get_node_mut(id).unwrap();
                    let how = o[3].as_str().unwrap();
                    n.origin = (how == "at" || how == "both").then(|| Point::new(v[0], v[1]));
                    n.size = (how == "size" || how == "both").then(|| Size::new(v[2], v[3]));
                }
                "addedge" => {
                    step["arg"] = json!([o[2], o[3]]);
                    let (a, b) = (resolve(&d.doc, &o[2]), resolve(&d.doc, &o[3]));
                    d.doc.add_edge(mir::EdgeData::new(a, b, None));
                }
                "render" => {
                    let mut r = SVGRenderer::new();
                    r.view_box = d.view;
                    let mut bytes: Vec<u8> = vec![];
                    let res = r.render(&d.doc, &mut bytes);
                    step["len"] = json!(bytes.len());
                    match res {
                        Ok(()) => {
                            let n = pictures.len() + 1;
                            step["pic"] = json!(*pictures.entry(bytes).or_insert(n));
                            step["res"] = json!("ok");
                        }
                        Err(BackendError::InvalidLayout(id)) => {
                            step["res"] = json!("layout");
                            step["who"] = crate::doc::refs(&d.doc).get(&id).cloned().unwrap_or(json!([0]));
                        }
                        Err(_) => step["res"] = json!("error"),
                    }
                }
                _ => panic!("op {kind}"),
            });
            let failed = res.is_err();
            if let Err(e) = res {
                step["panic"] = json!(e);
            }
            // state of the document after the step
            step["geo"] = geometry(&d.doc);
            step["routes"] = routes(&d.doc);
            step["vb"] = crate::doc::rect(d.view);
            steps.push(step);
            if failed {
                break;
            }
        }
        out.push(json!({"docs": h["docs"], "steps": steps}));
    }
    json!({"hist": out})
}
