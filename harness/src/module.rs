//! Histories of modules and definitions: every step, and all that can be read from all of them after it.
use crate::util::*;
use seiren::erd::*;
use seiren::mir::{Document, ShapeKind};
use serde_json::{json, Value};

fn document(doc: &Document) -> Value {
    let m = crate::doc::refs(doc);
    let boxes: Vec<Value> = doc
        .body()
        .children()
        .map(|b| {
            let rows = doc.get_node(b).unwrap().children().map(|r| match doc.get_node(r).unwrap().kind() {
                ShapeKind::Field(f) => json!([
                    cps(&f.title.text),
                    f.subtitle.iter().map(|t| cps(&t.text)).collect::<Vec<_>>(),
                    f.badge.iter().map(|t| cps(&t.text)).collect::<Vec<_>>(),
                ]),
                _ => json!([]),
            });
            Value::Array(rows.collect())
        })
        .collect();
    let edges: Vec<Value> = doc.edges().map(|e| json!({"a": m[&e.source_id()], "b": m[&e.target_id()]})).collect();
    json!({"boxes": boxes, "edges": edges})
}

pub fn run(case: &Value) -> Value {
    let mut mods: Vec<Module> = vec![];
    let mut drafts: Vec<EntityDefinition> = vec![];
    let mut docs: Vec<Document> = vec![];
    let mut out = vec![];
    for s in case["hist"].as_array().unwrap() {
        let n = |k: &str| (s[k].as_u64().unwrap() as usize).wrapping_sub(1);
        let (a, b, c) = (n("a"), n("b"), n("c"));
        let res = guard(|| {
            let name = s["v"].as_array().unwrap().first().map(from_cps);
            match s["op"].as_str().unwrap() {
                "new" => mods.push(Module::new(name)),
                "draft" => drafts.push(EntityDefinition::new(name.unwrap())),
                "field" => drafts[a].add_field(field(&s["f"])),
                "draftcopy" => drafts.push(drafts[a].clone()),
                "put" => mods[a].add_entity_definition(drafts[b].clone()),
                "rel" => mods[a].add_entity_relation(EntityRelation::new(path(&s["p"]), path(&s["q"]))),
                "entry" => {
                    let e = mods[b].entries().nth(c).unwrap().clone();
                    mods[a].add_entry(e);
                }
                "copy" => mods.push(mods[a].clone()),
                "make" => docs.push(mods[a].into_mir()),
                x => panic!("step {x}"),
            }
            json!({
                "panic": "", "step": s,
                "mods": mods.iter().map(module_json).collect::<Vec<_>>(),
                "drafts": drafts.iter().map(definition_json).collect::<Vec<_>>(),
                "docs": docs.iter().map(document).collect::<Vec<_>>(),
                "prints": mods.iter().map(|m| m.to_string()).collect::<Vec<_>>(),
            })
        });
        match res {
            Ok(v) => out.push(v),
            Err(e) => {
                out.push(json!({"panic": e, "step": s, "mods": [], "drafts": [], "docs": [], "prints": []}));
                break;
            }
        }
    }
    json!({"steps": out})
}
