//! source text -> module and diagnostics
use crate::util::*;
use seiren::parser::parse;
use serde_json::{json, Value};

fn diag_json<I: std::hash::Hash + Eq + ToString>(e: &chumsky::error::Simple<I>) -> Value {
    let mut exp: Vec<String> = e
        .expected()
        .map(|x| match x {
            Some(x) => x.to_string(),
            None => "end of input".to_string(),
        })
        .collect();
    exp.sort();
    let own = match e.reason() {
        chumsky::error::SimpleReason::Custom(m) => m.clone(),
        _ => String::new(),
    };
    json!({"s": e.span().start, "e": e.span().end, "exp": exp, "own": own})
}

fn parse_json(src: &str) -> Value {
    match guard(|| {
        let (ast, lex, syn) = parse(src);
        let print = ast.as_ref().map(|m| m.to_string());
        json!({
            "panic": "",
            "some": ast.is_some(),
            "ast": ast.as_ref().map(module_json).unwrap_or(json!({"name": [], "entries": []})),
            "lex": lex.iter().map(diag_json).collect::<Vec<_>>(),
            "syn": syn.iter().map(diag_json).collect::<Vec<_>>(),
            "print": print.as_deref().map(cps).unwrap_or(json!([])),
        })
    }) {
        Ok(v) => v,
        Err(msg) => json!({"panic": msg, "some": false, "ast": {"name": [], "entries": []},
                           "lex": [], "syn": [], "print": []}),
    }
}

/// {"src": [code points]} or {"mod": module} (its printed form is the source)
pub fn run(case: &Value) -> Value {
    let src = if case.get("mod").is_some() {
        match guard(|| module_from(&case["mod"]).to_string()) {
            Ok(s) => s,
            Err(msg) => return json!({"src": [], "panic": msg, "some": false,
                "ast": {"name": [], "entries": []}, "lex": [], "syn": [], "print": []}),
        }
    } else {
        from_cps(&case["src"])
    };
    let mut v = parse_json(&src);
    v["src"] = cps(&src);
    // parsing again must give the same
    let again = parse_json(&src);
    v["again"] = json!(["panic", "some", "ast", "lex", "syn", "print"]
        .iter()
        .all(|k| again[*k] == v[*k]));
    v
}

/// {"src": [code points]}: the picture the library makes of a text, and the number of diagnostics
pub fn lib(case: &Value) -> Value {
    use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
    use seiren::renderer::{Renderer, SVGRenderer};
    let src = from_cps(&case["src"]);
    match guard(|| {
        let (ast, lex, syn) = parse(&src);
        let svg = ast.as_ref().map(|m| {
            let mut doc = m.into_mir();
            let mut engine = SimpleLayoutEngine::new();
            let mut r = SVGRenderer::new();
            r.view_box = engine.place_nodes(&mut doc);
            engine.place_terminal_ports(&mut doc);
            engine.draw_edge_path(&mut doc);
            let mut bytes: Vec<u8> = vec![];
            r.render(&doc, &mut bytes).unwrap();
            String::from_utf8(bytes).unwrap()
        });
        let diags: Vec<Value> = lex.iter().map(diag_json).chain(syn.iter().map(diag_json)).collect();
        json!({"panic": "", "some": ast.is_some(), "n": diags.len(), "diags": diags, "svg": svg.unwrap_or_default()})
    }) {
        Ok(v) => v,
        Err(e) => json!({"panic": e, "some": false, "n": 0, "diags": [], "svg": ""}),
    }
}
