#!/usr/bin/env python3
"""tools/matrix.py [--all | --checks C01,C02] [--dir DIR] [bug ...]: runs checks against planted bugs, in copies under /tmp/mx.
Without --all: only the check of the bug's property.  --dir: take patches from another folder (refactorings: expects quiet)."""
import json, os, subprocess, sys, shutil, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all" in args
checks = None
d = os.path.join(VERIF, "seeded")
if "--checks" in args:
    checks = args[args.index("--checks") + 1].split(",")
    del args[args.index("--checks"):args.index("--checks") + 2]
if "--dir" in args:
    d = args[args.index("--dir") + 1]
    del args[args.index("--dir"):args.index("--dir") + 2]
bugs = [a for a in args if not a.startswith("--")] or sorted(os.listdir(d))
ALL = ["C%02d" % i for i in range(1, 25)]
ALL = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
W = int(os.environ.get("MX_W", "3"))
MX = os.environ.get("MX", "/tmp/mx")   # scratch folder of this run
q = queue.Queue()
for b in bugs:
    q.put(b)
res = {}


def work(k):
    base = f"{MX}/{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "work", "--exclude", "seeded", "--exclude", ".git", VERIF + "/", base + "/verif"]) if shutil.which("rsync") else \
        subprocess.run(f"mkdir {base}/verif && cd {VERIF} && tar cf - --exclude=./work --exclude=./seeded --exclude=./.git . | tar xf - -C {base}/verif", shell=True, check=True)
    p = base + "/verif/harness/Cargo.toml"
    s = open(p).read().replace('"/repo', f'"{base}/repo')
    open(p, "w").write(s)
    env = dict(os.environ, SEIREN_REPO=base + "/repo")
    env.setdefault("VERIF_SEED", "1")
    while True:
        try:
            b = q.get_nowait()
        except queue.Empty:
            break
        subprocess.run("git checkout -q -- . ", shell=True, cwd=base + "/repo")
        pd = os.path.join(d, b, "patch.diff")
        a = subprocess.run(["git", "apply", pd], cwd=base + "/repo")
        if a.returncode:
            res[b] = "patch does not apply"
            print(b, res[b], flush=True)
            continue
        meta = os.path.join(d, b, "meta.json")
        prop = json.load(open(meta))["property"] if os.path.exists(meta) else None
        cs = checks or (ALL if allc or not prop else [prop])
        out = {}
        for c in cs:
            r = subprocess.run([sys.executable, "check.py", c], cwd=base + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out[c] = r.returncode
            if r.returncode == 2:
                out[c] = "ERROR " + r.stdout[-300:]
            elif r.returncode == 1 and prop == c and not allc:
                out[c] = "caught"
        res[b] = out
        hit = [c for c in out if out[c] in (1, "caught")]
        odd = {c: o for c, o in out.items() if o not in (0, 1, "caught")}
        print(f"{b:28s} {prop}: {'CAUGHT' if prop in hit else 'missed' if prop else ''} by {' '.join(hit)} {odd or ''}", flush=True)
    shutil.rmtree(base, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(MX, ignore_errors=True)
if d == os.path.join(VERIF, "seeded"):   # which checks are known to report which bug
    f = os.path.join(VERIF, "tools", "matrix.json")
    known = json.load(open(f)) if os.path.exists(f) else {}
    for b, out in res.items():
        if isinstance(out, dict):
            was = set(known.get(b, []))
            was -= set(out)
            known[b] = sorted(was | {c for c, o in out.items() if o in (1, "caught")})
    json.dump(known, open(f, "w"), indent=0, sort_keys=True)
