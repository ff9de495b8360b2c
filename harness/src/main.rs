//! Conformance harness: runs the real code (library API of /repo) on the inputs it is given and
//! writes down what it observed, one JSON object per line. It judges nothing.
//!
//!   conf <command> IN OUT      (one JSON case per line in IN, one observation per line in OUT)
mod doc;
mod draw;
mod front;
mod graph;
mod mir;
mod module;
mod geom;
mod session;
mod util;
mod writer;

use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn one(cmd: &str, case: &Value) -> Value {
    match cmd {
        "front" => front::run(case),
        "doc" => doc::run(case),
        "draw" => draw::run(case),
        "ports" => draw::ports(case),
        "roads" => draw::roads(case),
        "mir" => mir::run(case),
        "module" => module::run(case),
        "graph" => graph::run(case),
        "session" => session::run(case),
        "writer" => writer::run(case),
        "geom" => geom::run(case),
        "lib" => front::lib(case),
        _ => panic!("unknown command {cmd}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].as_str();
    let input = BufReader::new(std::fs::File::open(&args[2]).expect("open input"));

    if cmd == "notebook" {
        // prints to stdout by itself
        for line in input.lines() {
            let case: Value = serde_json::from_str(&line.unwrap()).expect("json");
            doc::notebook(&case);
        }
        return;
    }

    // Panics of the code under test are data; keep stderr quiet.
    if std::env::var_os("CONF_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }

    // Watchdog: a case that takes longer than the limit ends the run with status 86.
    // The driver knows which case it was from the number of lines in OUT.
    let progress = Arc::new(AtomicU64::new(0));
    {
        let progress = progress.clone();
        let limit: u64 = std::env::var("CONF_CASE_LIMIT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(40);
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = 0;
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let now = progress.load(Ordering::SeqCst);
                since = if now == last { since + 1 } else { 0 };
                last = now;
                if since >= limit {
                    std::process::exit(86);
                }
            }
        });
    }

    let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("create output"));

    // A large stack, so that deep (but finite) recursion is not mistaken for a crash.
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn({
            let cmd = cmd.to_string();
            move || {
                let cases: Vec<Value> = input
                    .lines()
                    .map(|l| l.unwrap())
                    .filter(|l| !l.trim().is_empty())
                    .map(|l| serde_json::from_str(&l).expect("json"))
                    .collect();
                let n: usize = std::env::var("CONF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                if n == 1 {
                    for case in &cases {
                        writeln!(out, "{}", one(&cmd, case)).unwrap();
                        out.flush().unwrap();
                        progress.fetch_add(1, Ordering::SeqCst);
                    }
                    return;
                }
                // several cases at the same time; written in order
                let (next, done) = (AtomicU64::new(0), Mutex::new((out, BTreeMap::new(), 0)));
                std::thread::scope(|s| {
                    for _ in 0..n {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, || loop {
                                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                                if i >= cases.len() {
                                    break;
                                }
                                let obs = one(&cmd, &cases[i]).to_string();
                                let mut d = done.lock().unwrap();
                                let (out, waiting, at) = &mut *d;
                                waiting.insert(i, obs);
                                while let Some(o) = waiting.remove(at) {
                                    writeln!(out, "{o}").unwrap();
                                    *at += 1;
                                }
                                out.flush().unwrap();
                                progress.fetch_add(1, Ordering::SeqCst);
                            })
                            .unwrap();
                    }
                });
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(87));
}
