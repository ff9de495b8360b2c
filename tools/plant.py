#!/usr/bin/env python3
"""tools/plant.py FILE.py [id ...]: makes planted bugs from a list, confirms each in a scratch copy of /repo
and keeps the confirmed ones in seeded/.  FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
rs=... or sh=...)]."""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
RS = '''#!/bin/bash
# run in /repo after its build; 0: the property holds here
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
lib=$(ls -t target/debug/deps/libseiren-*.rlib | head -1)
rustc --edition 2021 -A warnings -o "$tmp/demo" "$here/demo.rs" --extern seiren="$lib" -L dependency=target/debug/deps || exit 3
timeout 100 "$tmp/demo"
'''
PRE = '''#![allow(unused)]
use seiren::{color::*, erd::*, error::*, evcxr::*, geometry::*, layout::*, mir, parser::parse, renderer::*};
fn module(src: &str) -> Module { let (m, a, b) = parse(src); assert!(a.is_empty() && b.is_empty(), "refused: {src}"); m.expect("no module") }
fn lay(doc: &mut mir::Document) -> Option<Rect> {
    let mut e = SimpleLayoutEngine::new();
    let v = e.place_nodes(doc); e.place_terminal_ports(doc); e.draw_edge_path(doc); v
}
fn svg(doc: &mir::Document, v: Option<Rect>) -> String {
    let mut r = SVGRenderer::new(); r.view_box = v; let mut b = vec![]; r.render(doc, &mut b).unwrap(); String::from_utf8(b).unwrap()
}
fn picture(src: &str) -> String { let mut d = module(src).into_mir(); let v = lay(&mut d); svg(&d, v) }
fn routes(src: &str) -> (mir::Document, Vec<Vec<Point>>) {
    let mut d = module(src).into_mir(); lay(&mut d);
    let r = d.edges().map(|e| e.path_points().map(|p| p.to_vec()).unwrap_or_default()).collect(); (d, r)
}
'''


def sh(cmd, cwd=S, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def build(d):
    # the scratch copy stands where build.sh and test.sh say /repo
    env = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only;" % d
    b = sh(env + "cargo test --workspace --no-run --offline", d)
    if b.returncode:
        return "does not build:\n" + b.stdout[-3000:]
    t = sh(env + "timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", d)
    if t.returncode:
        return "fails tests:\n" + "\n".join(l for l in t.stdout.split("\n") if "FAILED" in l or "failed" in l)[:600]
    return ""


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", S], check=True)
    e = build(S)
    assert not e, e
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join("/tmp", "plantdemo", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.sh", "w") as f:
            f.write(b.get("sh") or RS)
        if "rs" in b:
            with open(d + "/demo.rs", "w") as f:
                f.write(PRE + b["rs"])
        for n, t in b.get("files", {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        os.chmod(d + "/demo.sh", 0o755)
        sh("git checkout -q -- .")
        build_unchanged = build(S)
        r0 = sh(d + "/demo.sh")
        if build_unchanged or r0.returncode:
            print(b["id"], "DEMO FAILS UNCHANGED", r0.returncode, (build_unchanged + r0.stdout)[-700:])
            continue
        ok = True
        for fn, old, new in b["edits"]:
            p = os.path.join(S, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        e = build(S)
        if e:
            print(b["id"], e[-1500:])
            continue
        r1 = sh(d + "/demo.sh")
        if r1.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG")
            continue
        diff = sh("git diff").stdout
        out = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(b["id"], "kept;", r1.stdout.strip().split("\n")[-1][:140] if r1.stdout.strip() else r1.returncode)
    shutil.rmtree("/tmp/plantdemo", ignore_errors=True)
    shutil.rmtree(S, ignore_errors=True)


main()
