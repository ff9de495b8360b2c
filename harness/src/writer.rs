//! rendering into a faulty writer
use crate::util::*;
use seiren::error::BackendError;
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::renderer::{Renderer, SVGRenderer};
use serde_json::{json, Value};
use std::io::{self, ErrorKind, Write};

const KINDS: [(&str, ErrorKind); 6] = [
    ("other", ErrorKind::Other),
    ("pipe", ErrorKind::BrokenPipe),
    ("block", ErrorKind::WouldBlock),
    ("timeout", ErrorKind::TimedOut),
    ("denied", ErrorKind::PermissionDenied),
    ("invalid", ErrorKind::InvalidInput),
];

fn kind_name(k: ErrorKind) -> String {
    for (n, e) in KINDS {
        if e == k {
            return n.to_string();
        }
    }
    match k {
        ErrorKind::WriteZero => "zero".into(),
        ErrorKind::Interrupted => "intr".into(),
        k => format!("{k:?}"),
    }
}

/// Follows a script; each step is ["take", n] | ["zero"] | ["intr"] | [error kind].
/// After the script everything is accepted.
struct Scripted<'a> {
    script: std::slice::Iter<'a, Value>,
    reference: &'a [u8],
    got: usize,
    log: Vec<Value>,
    /// how errors are made: 0 of a kind, 1 with a message, 2 of the operating system
    make: u64,
}

/// What an error says, and what the errors below it say.
fn says(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut out = vec![e.to_string()];
    let mut at = e.source();
    while let Some(x) = at {
        out.push(x.to_string());
        at = x.source();
    }
    out
}

fn failure(name: &str, make: u64, k: usize) -> io::Error {
    let kind = KINDS.iter().find(|(k, _)| *k == name).expect("kind").1;
    let os = match name {
        "pipe" => 32,
        "block" => 11,
        "timeout" => 110,
        "denied" => 13,
        "invalid" => 22,
        _ => 0,
    };
    match make {
        1 => io::Error::new(kind, format!("no room in drawer {k}, {name}")),
        2 if os > 0 => io::Error::from_raw_os_error(os),
        _ => io::Error::from(kind),
    }
}

impl Write for Scripted<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let all = json!(["take", 1_000_000_000]);
        let step = self.script.next().unwrap_or(&all).clone();
        let matches = self.reference.len() >= self.got + buf.len()
            && &self.reference[self.got..self.got + buf.len()] == buf;
        let name = step[0].as_str().unwrap().to_string();
        let mut took = 0;
        let res = match name.as_str() {
            "take" => {
                took = buf.len().min(step[1].as_u64().unwrap() as usize);
                Ok(took)
            }
            "zero" => Ok(0),
            "intr" => Err(io::Error::from(ErrorKind::Interrupted)),
            n => Err(failure(n, self.make, self.log.len())),
        };
        let said = res.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
        self.got += took;
        self.log.push(json!({"k": name, "len": buf.len(), "match": matches, "took": took, "said": said}));
        if self.log.len() > 10_000 {
            panic!("endless writing");
        }
        res
    }

    fn flush(&mut self) -> io::Result<()> {
        self.log.push(json!({"k": "flush", "len": 0, "match": true, "took": 0, "said": ""}));
        Ok(())
    }
}

/// {"mod":…, "laid": bool, "runs":[{"script":[…]}]}
pub fn run(case: &Value) -> Value {
    let mut doc = module_from(&case["mod"]).into_mir();
    let mut engine = SimpleLayoutEngine::new();
    let mut vb = None;
    if case["laid"] == json!(true) {
        vb = engine.place_nodes(&mut doc);
        engine.place_terminal_ports(&mut doc);
        engine.draw_edge_path(&mut doc);
    }
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    let mut reference: Vec<u8> = vec![];
    let ok = match guard(|| r.render(&doc, &mut reference)) {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    let mut runs = vec![];
    for (i, run) in case["runs"].as_array().unwrap().iter().enumerate() {
        let mut told = vec![];
        let script = run["script"].as_array().unwrap();
        let mut w = Scripted {
            script: script.iter(),
            reference: &reference,
            got: 0,
            log: vec![],
            make: i as u64 % 3,
        };
        let res = match guard(|| r.render(&doc, &mut w)) {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e @ BackendError::IoFailure(_))) => {
                told = says(&e);
                let BackendError::IoFailure(e) = e else { unreachable!() };
                told.extend(says(&e));
                format!("io:{}", kind_name(e.kind()))
            }
            Ok(Err(BackendError::InvalidLayout(_))) => "layout".to_string(),
            #[allow(unreachable_patterns)]
            Ok(Err(_)) => "error".to_string(),
            Err(_) => "panic".to_string(),
        };
        // the writer's own words, if they are in what came back
        let last = w.log.iter().rev().find_map(|c| c["said"].as_str().filter(|s| !s.is_empty())).unwrap_or("").to_string();
        let told = if told.iter().any(|t| t.contains(&last)) { last } else { told.join("; ") };
        runs.push(json!({"told": told, "script": script.iter().map(|s| s[0].clone()).collect::<Vec<_>>(), "calls": w.log, "got": w.got, "res": res}));
    }
    json!({"mod": case["mod"], "total": reference.len(), "ref": ok, "laid": case["laid"], "runs": runs})
}
