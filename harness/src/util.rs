use seiren::erd::{
    EntityDefinition, EntityField, EntityFieldKey, EntityFieldType, EntityPath, EntityRelation,
    Module, ModuleEntry,
};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Coordinates are passed on in eighths of a unit, as integers.
pub const SCALE: f64 = 8.0;
/// Stands for a number that is not a multiple of 1/8 (or is out of range).
pub const INEXACT: i64 = -999_999_999;

pub fn num(v: f32) -> i64 {
    let s = v as f64 * SCALE;
    if s.is_finite() && s.abs() < 200_000_000.0 && s == s.round() {
        s as i64
    } else {
        INEXACT
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".to_string())
    })
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn from_cps(v: &Value) -> String {
    v.as_array()
        .expect("code points")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("scalar value"))
        .collect()
}

pub fn type_name(t: &EntityFieldType) -> &'static str {
    match t {
        EntityFieldType::Int => "int",
        EntityFieldType::Uuid => "uuid",
        EntityFieldType::Text => "text",
        EntityFieldType::Timestamp => "timestamp",
    }
}

pub fn key_name(k: Option<&EntityFieldKey>) -> &'static str {
    match k {
        None => "",
        Some(EntityFieldKey::PrimaryKey) => "PK",
        Some(EntityFieldKey::ForeginKey) => "FK",
    }
}

pub fn path_json(p: &EntityPath) -> Value {
    match p {
        EntityPath::Entity(t) => json!([cps(t)]),
        EntityPath::Field(t, f) => json!([cps(t), cps(f)]),
    }
}

pub fn definition_json(d: &EntityDefinition) -> Value {
    json!({
        "k": "def",
        "name": cps(d.name()),
        "fields": d.fields().map(|f| json!({
            "n": cps(f.name()),
            "t": type_name(f.field_type()),
            "k": key_name(f.field_key()),
        })).collect::<Vec<_>>(),
    })
}

pub fn module_json(m: &Module) -> Value {
    let entries: Vec<Value> = m
        .entries()
        .map(|e| match e {
            ModuleEntry::EntityDefinition(d) => definition_json(d),
            ModuleEntry::EntityRelation(r) => json!({
                "k": "rel",
                "a": path_json(r.start_path()),
                "b": path_json(r.end_path()),
            }),
        })
        .collect();
    json!({
        "name": m.name().map(|n| vec![cps(n)]).unwrap_or_default(),
        "entries": entries,
    })
}

pub fn field(f: &Value) -> EntityField {
    EntityField::new(
        from_cps(&f["n"]),
        match f["t"].as_str().unwrap() {
            "int" => EntityFieldType::Int,
            "uuid" => EntityFieldType::Uuid,
            "text" => EntityFieldType::Text,
            "timestamp" => EntityFieldType::Timestamp,
            t => panic!("type {t}"),
        },
        match f["k"].as_str().unwrap() {
            "" => None,
            "PK" => Some(EntityFieldKey::PrimaryKey),
            "FK" => Some(EntityFieldKey::ForeginKey),
            k => panic!("key {k}"),
        },
    )
}

pub fn path(v: &Value) -> EntityPath {
    let a = v.as_array().unwrap();
    if a.len() == 1 {
        EntityPath::Entity(from_cps(&a[0]))
    } else {
        EntityPath::Field(from_cps(&a[0]), from_cps(&a[1]))
    }
}

/// Builds a module through the public API.
pub fn module_from(v: &Value) -> Module {
    let name = v["name"].as_array().unwrap();
    let mut m = Module::new(name.first().map(from_cps));
    for e in v["entries"].as_array().unwrap() {
        if e["k"] == "def" {
            let mut d = EntityDefinition::new(from_cps(&e["name"]));
            for f in e["fields"].as_array().unwrap() {
                d.add_field(field(f));
            }
            m.add_entity_definition(d);
        } else {
            m.add_entity_relation(EntityRelation::new(path(&e["a"]), path(&e["b"])));
        }
    }
    m
}
