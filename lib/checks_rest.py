"""C05, C17 to C19, C21 to C24: whole pipeline, histories, faults, command line, geometry, overlay, notebook."""
import hashlib, json, os, resource, shutil, subprocess, threading, time, concurrent.futures as cf
import gen_doc as D
import gen_front as G
import hints as H
import checks_front as F
import checks_doc as P
import svg
from core import CLI, CONF, CORES, TARGET, ToolError, cps, text


# ------------------------------------------------------------------ sessions
def model_session(ck):
    ck.model("MCSession", ["OfNow", "FreshIsComplete"], constants={"MaxOps": ck.pick(6, 10), "EmitAt": 0}, deadlock=False,
             view="NoHist")
    ck.model("MCSession", ["OfNow", "InOrder", "FreshIsComplete", "Emit"], constants={"MaxOps": 4 if ck.thorough else 3, "EmitAt": 4 if ck.thorough else 3},
             deadlock=False, emit="GEN")
    return [{"docs": [{"boxes": d["rows"], "edges": d["edges"]} for d in e["d"]], "engines": 2, "ops": e["h"]} for e in ck.emitted]


def content(rng, nb=4):
    rows = [H.choice(rng, [0, 1, 1, 2, 2, 3, 5], hi=130, p=0.006) for _ in range(H.choice(rng, range(nb + 1), hi=40, p=0.015))]
    refs = [[i + 1] for i in range(len(rows))] + [[i + 1, j + 1] for i in range(len(rows)) for j in range(rows[i])]
    edges = [[rng.choice(refs), rng.choice(refs)] for _ in range(H.choice(rng, [0, 1, 1, 2, 3], hi=70, p=0.02))] if refs else []
    return rows, edges


def lay(d, e, extra=()):
    return [["place", d, e], ["ports", d, e], ["route", d, e], ["render", d]]


def put(rng, d, ref):
    """A place by hand, or only half of one."""
    n = lambda lo: rng.choice([0, 0, 400, 8 * rng.randint(lo, 900)])
    return ["put", d, ref, rng.choice(["none", "at", "size", "both", "both"]), [n(-100), n(-100), n(0), n(0)]]


def unfinished(rng):
    """Laid out, then one place taken away, in part or in full, or given by hand; rendered after each step."""
    hist = []
    for _ in range(3):
        rows, edges = content(rng, 4)
        rs = [[i + 1] for i in range(len(rows))] + [[i + 1, j + 1] for i in range(len(rows)) for j in range(rows[i])]
        ops = lay(1, 1)
        for _ in range(rng.randint(1, 4)):
            if rs:
                ops += [put(rng, 1, rng.choice(rs)), ["render", 1]]
            if rng.random() < 0.4:
                ops += lay(1, 1)[rng.randint(0, 3):]
        hist.append({"docs": [{"boxes": rows, "edges": edges}, {"boxes": [], "edges": []}], "engines": 1, "ops": ops})
    return {"hist": hist}


def growth(rng, rows, edges):
    """A start and edits that lead to this document."""
    have = list(rows)
    ops = []
    k = rng.randint(0, len(edges))
    late = [["addedge", a, b] for a, b in edges[k:]]
    keep = edges[:k]
    while rng.random() < 0.7 and have:
        used = [r for e in keep for r in e]
        b = len(have)
        if rng.random() < 0.6:
            i = rng.randrange(b)
            if have[i] > 0 and [i + 1, have[i]] not in used:
                have[i] -= 1
                ops.append(["addrow", i + 1])
                continue
        if not any(r[0] == b for r in used):
            ops.append(["addbox", have.pop()])
        elif late or not keep:
            break
        else:
            break
    ops.reverse()
    return {"boxes": have, "edges": keep}, ops + late


def with_doc(ops, d):
    return [[o[0], d] + o[1:] for o in ops]


def random_case(rng):
    """Several ways to the same document, with all kinds of steps in between."""
    size = rng.choice([4] * 12 + [9, 14, 24])
    rows, edges = content(rng, size)
    other = content(rng, size)
    hist = [{"docs": [{"boxes": rows, "edges": edges}], "engines": 1, "ops": lay(1, 1)}]
    for _ in range(rng.randint(2, 4)):
        start, edits = growth(rng, rows, edges)
        docs = [start, {"boxes": other[0], "edges": other[1]}]
        ops = []
        todo = with_doc(edits, 1)
        for _ in range(rng.randint(0, 7)):
            d = rng.choice([1, 1, 2])
            r = rng.random()
            if r < 0.35:
                ops += lay(d, rng.randint(1, 2))[: rng.randint(1, 4)]
            elif r < 0.5 and todo:
                ops.append(todo.pop(0))
            elif r < 0.6:
                # rows that are there all along
                b = docs[d - 1]["boxes"]
                rs = [[i + 1] for i in range(len(b))] + [[i + 1, j + 1] for i in range(len(b)) for j in range(b[i])]
                if rs:
                    ops.append(put(rng, d, rng.choice(rs)))
            elif r < 0.85:
                ops.append([rng.choice(["place", "ports", "route"]), d, rng.randint(1, 2)])
            else:
                ops.append(["render", d])
        ops += todo
        tail = lay(1, rng.randint(1, 2))
        if rng.random() < 0.3:
            tail = lay(1, 1) + lay(1, 2)
        if rng.random() < 0.15:
            tail = tail[: rng.randint(0, 3)]
        ops += tail
        if rng.random() < 0.3:
            ops += [["render", 1], ["render", 1]]
        hist.append({"docs": docs, "engines": 2, "ops": ops})
    return {"hist": hist}


def random_edits(rng):
    """Any steps in any order, without an aim."""
    hist = []
    for _ in range(3):
        docs = []
        for _ in range(2):
            r, e = content(rng, rng.choice([3] * 10 + [8, 14]))
            docs.append({"boxes": r, "edges": e})
        rows = [list(d["boxes"]) for d in docs]
        ops = []
        for _ in range(rng.randint(3, 14)):
            d = rng.randint(1, 2)
            k = rng.random()
            rs = rows[d - 1]
            if k < 0.6:
                ops.append([rng.choice(["place", "ports", "route"]), d, rng.randint(1, 2)])
            elif k < 0.7:
                ops.append(["render", d])
            elif k < 0.75 and rs:
                ops.append(put(rng, d, rng.choice([[i + 1] for i in range(len(rs))] + [[i + 1, j + 1] for i in range(len(rs)) for j in range(rs[i])])))
            elif k < 0.83:
                n = rng.choice([0, 1, 2, 3])
                rs.append(n)
                ops.append(["addbox", d, n])
            elif k < 0.92 and rs:
                b = rng.randrange(len(rs))
                rs[b] += 1
                ops.append(["addrow", d, b + 1])
            elif rs:
                refs = [[i + 1] for i in range(len(rs))] + [[i + 1, j + 1] for i in range(len(rs)) for j in range(rs[i])]
                ops.append(["addedge", d, rng.choice(refs), rng.choice(refs)])
        ops += [["render", 1], ["render", 2]]
        hist.append({"docs": docs, "engines": 2, "ops": ops})
    return {"hist": hist}


def sessions(ck, inv, n_model, n_random):
    hs = model_session(ck)
    ck.detail["histories_from_the_model"] = len(hs)
    if len(hs) > n_model:
        hs = ck.rng.sample(hs, n_model)
    for h in hs:
        # every history ends in looking at both documents
        h["ops"] = h["ops"] + [["render", 1], ["render", 2]]
    cases = [{"hist": hs[i:i + 4]} for i in range(0, len(hs), 4)]
    cases += [random_case(ck.rng) if i % 2 else random_edits(ck.rng) for i in range(n_random)]
    cases += [unfinished(ck.rng) for _ in range(n_random // 3)]
    for n in [9, 13, 17, 33, 70, 140, 210, 260] + H.some(ck.rng, 600, 4):
        # the last of many lacks something
        none = ["none", [0, 0, 0, 0]]
        rows = [1, n, 2]
        hist = [lay(1, 1) + [["put", 1, ref] + none, ["render", 1]] for ref in ([2, n], [2, n - 1], [3, 2])] + [lay(1, 1) + [["addrow", 1, 2], ["render", 1], ["addrow", 1, 2]] + lay(1, 1)]
        cases.append({"hist": [{"docs": [{"boxes": rows, "edges": [[[1], [2, n]], [[2, n], [3]]]}], "engines": 1, "ops": ops} for ops in hist]})
        if n <= 300:
            hist = [lay(1, 1) + [["put", 1, ref] + none, ["render", 1]] for ref in ([n], [n - 1, 1])] + [lay(1, 1) + [["addbox", 1, 1], ["render", 1]] + lay(1, 1)]
            cases.append({"hist": [{"docs": [{"boxes": [1] * n, "edges": [[[1], [n]]]}], "engines": 1, "ops": ops} for ops in hist]})
        es = [ck.rng.choice([[[1], [2, 1]], [[3], [2]], [[3, 2], [3, 1]]]) for _ in range(n)]
        cases.append({"hist": [{"docs": [{"boxes": [1, 2, 2], "edges": es}], "engines": 1, "ops": lay(1, 1) + [["addedge", 1, [1], [3]], ["render", 1]] + lay(1, 1)}]})
    for n in H.some(ck.rng, 300, 4):
        # one step very often; many boxes
        for o in (["place", 1, 1], ["ports", 1, 1], ["route", 1, 1], ["render", 1]):
            cases.append({"hist": [{"docs": [{"boxes": [1, 2, 0, 3], "edges": [[[1], [2, 2]], [[4, 1], [3]]]}], "engines": 1,
                                    "ops": lay(1, 1) + [["addrow", 1, 1]] + [o] * n + lay(1, 1)[ck.rng.randint(0, 3):] + [["addbox", 1, 2]] + lay(1, 1)}]})
        for rows in ([1] * n, [2, n, 1], [1, 2, 1]):
            es = [[[1], [len(rows)]], [[2, 1], [1, 1]]] + ([[[1], [2, 1]]] * n if len(rows) == 3 and rows[0] == 1 else [])
            cases.append({"hist": [{"docs": [{"boxes": rows, "edges": es}], "engines": 1, "ops": lay(1, 1) + [["render", 1]]},
                                   {"docs": [{"boxes": rows[:-1], "edges": []}], "engines": 1,
                                    "ops": lay(1, 1) + [["addbox", 1, rows[-1]]] + [["addedge", 1, a, b] for a, b in es] + lay(1, 1)}]})
    obs = ck.harness("session", cases)
    for i, o in enumerate(obs):
        if "dead" in o:
            ck.violation(f"a history ended the process or hung: {o['dead']}", {"case": cases[i]})
        o["hist"] = [h for h in o["hist"] if h["steps"]] or o["hist"][:1]
    ck.detail["histories"] = sum(len(o["hist"]) for o in obs)
    ck.detail["steps"] = sum(len(h["steps"]) for o in obs for h in o["hist"])
    ck.samples += [json.dumps(c)[:600] for c in cases[:: max(1, len(cases) // 3)][:3]]
    ck.validate("TraceSession", [inv], cases, obs, deadlock=False, chunk=6000)


def c18(ck):
    sessions(ck, "C18", ck.pick(4000, 60000), ck.pick(1500, 20000))


def c17(ck):
    sessions(ck, "C17", ck.pick(2000, 30000), ck.pick(1500, 20000))
    # the same modules in several processes
    mods = P.shapes(ck, ck.pick(250, 4000)) + [D.wild_module(ck.rng) for _ in range(ck.pick(250, 4000))]
    mods += [D.large(ck.rng, 30, edges=20) for _ in range(ck.pick(20, 200))] + D.scale_modules(ck.rng)[:-1] + D.hinted(ck.rng, 200, 300, 600)
    cases = [{"mod": m} for m in mods]
    elsewhere = os.path.join(ck.work, "elsewhere")
    os.makedirs(elsewhere, exist_ok=True)
    # the surroundings of a process: its environment and its directory
    around = [{}, {"env": {k: "1" for k in H.ENV}, "cwd": elsewhere}, {"env": dict({k: ck.rng.choice(["", "0", "dumb", "ja_JP.UTF-8", "/nonexistent", "trace", "always"]) for k in H.ENV})}]
    runs = []
    for r in range(ck.pick(3, 6)):
        order = list(range(len(cases)))
        ck.rng.shuffle(order)
        # the last run works on several modules at the same time
        last = r == ck.pick(3, 6) - 1
        got = ck.harness("doc", [cases[i] for i in order], **({"shards": 1, "threads": 8} if last else {}), **around[r % 3])
        back = [None] * len(cases)
        for i, o in zip(order, got):
            back[i] = {"geo": o.get("geo", []), "routes": o.get("routes", []), "vb": o.get("vb", []),
                       "svg": hashlib.sha256(o.get("svg", "").encode()).hexdigest(), "end": o.get("dead", "") or o["panic"]}
        runs.append(back)
    obs = [{"mod": c["mod"], "panic": "", "runs": [r[i] for r in runs]} for i, c in enumerate(cases)]
    ck.validate("TraceDoc", ["C17"], cases, obs, constants={"Goal": '"doc"'}, deadlock=False, name="runs", describe=P.describe)
    # parsing
    texts = F.corpus() + G.scales(ck.rng) + [G.random_text(ck.rng, [3, 4, 2, 2, 1]) for _ in range(ck.pick(1500, 20000))]
    cases = [G.case(t) for t in texts]
    obs = F.observe(ck, cases)
    ck.validate("TraceFront", ["C17"], cases, obs, name="texts", describe=F.describe, view="Where")


# -------------------------------------------------------------------- writer
def c19(ck):
    rng = ck.rng
    ck.model("MCWriter", ["AllOrError", "Prefix", "GivenBack", "Emit"],
             constants={"Total": 3, "MaxEvents": ck.pick(5, 6), "EmitAll": "TRUE"}, deadlock=False, emit="GEN",
             props=["Returns", "OnceAccepted"])
    scripts = {json.dumps(s) for s in ck.emitted}
    ck.detail["scripts_from_the_model"] = len(scripts)
    scripts = [json.loads(s) for s in sorted(scripts)]
    mods = [D.shape(rng, h, e) for h, e in (([], []), ([1], []), ([3, 2], [([1, 2], [2])]), ([2, 4, 1, 3], [([1], [4, 2]), ([2, 3], [2, 3])]))]
    mods += [D.random_module(rng, maxbox=4) for _ in range(ck.pick(20, 300))]
    mods += [D.wild_module(rng, odd=0.5) for _ in range(ck.pick(10, 200))]
    mods += [D.shape(rng, [rng.randint(2, 5) for _ in range(k)], []) for k in ck.pick([40, 260], [40, 100, 260, 600]) + H.near(600)[:8]]   # long pictures
    sizes = ck.harness("writer", [{"mod": m, "laid": True, "runs": []} for m in mods])
    ck.detail["longest_picture"] = max(s["total"] for s in sizes)
    for i, s in enumerate(sizes):
        if s.get("ref") != "ok":
            ck.violation("rendering into memory fails", {"case": mods[i], "observed": s})
    cases = []
    kinds = ["other", "pipe", "block", "timeout", "denied", "invalid"]
    for m, s in zip(mods, sizes):
        total = s["total"]
        runs = []
        pick = scripts if len(cases) < 4 or ck.thorough else rng.sample(scripts, min(60, len(scripts)))
        for sc in pick:
            # the model's three chunks become pieces of this document
            out, left = [], total
            for e in sc:
                if e[0] == "take":
                    n = max(1, (total * e[1]) // 3 - rng.choice([0, 0, 1]))
                    out.append(["take", n])
                else:
                    out.append(e)
            runs.append({"script": out})
        for _ in range(ck.pick(40, 200)):
            out = []
            for _ in range(H.choice(rng, range(13), hi=600, p=0.1)):
                r = rng.random()
                out.append(["take", H.choice(rng, [1, 2, 7, 64, 4096, 8192, 65536, total // 2 + 1, total - 1, total, 10 ** 6])] if r < 0.6
                           else ["intr", 0] if r < 0.85 else ["zero", 0] if r < 0.89 else [rng.choice(kinds), 0])
            runs.append({"script": out})
        # a fault right before the last byte, and byte by byte
        for k in kinds + ["zero", "intr"]:
            runs.append({"script": [["take", total - 1], [k, 0]]})
            runs.append({"script": [["intr", 0]] * 5 + [["take", total - 1], ["intr", 0], [k, 0]]})
        if total < 9000:
            runs.append({"script": [["take", 1]] * total})
        cases.append({"mod": m, "laid": True, "runs": runs})
    obs = ck.harness("writer", cases)
    for i, o in enumerate(obs):
        if "dead" in o:
            ck.violation("writing ended the process or hung", {"case": cases[i]["mod"], "observed": o})
    ck.detail["runs"] = sum(len(o["runs"]) for o in obs)
    ck.detail["writer_calls"] = sum(len(r["calls"]) for o in obs for r in o["runs"])
    ck.samples += [json.dumps({"total": o["total"], "script": o["runs"][3]["script"][:8], "result": o["runs"][3]["res"]}) for o in obs[:4]]
    ck.validate("TraceWriter", ["Fits", "Sound", "AllOrError", "Prefix"], cases, obs, chunk=400)


# ------------------------------------------------------------------ geometry
def c22(ck):
    rng = ck.rng
    ck.model("MCGeom", ["Agree", "Symmetric", "Convex", "InsetBack"], constants={"N": ck.pick(5, 6)}, deadlock=False)
    cases = []
    S = 8

    def add(r, ops):
        cases.append({"r": r, "ops": ops})

    # the small grid of the model, completely: all rectangles, all lines
    n = ck.pick(4, 5)
    pts = [(x, y) for x in range(n + 1) for y in range(n + 1)]
    for x1 in range(1, n):
        for x2 in range(x1, n):
            for y1 in range(1, n):
                for y2 in range(y1, n):
                    r = [S * x1, S * y1, S * (x2 - x1), S * (y2 - y1)]
                    add(r, [["hit", S * a[0], S * a[1], S * b[0], S * b[1]] for a in pts for b in pts]
                        + [["in", S * a[0], S * a[1]] for a in pts])
    for _ in range(ck.pick(1500, 20000)):
        lim = rng.choice([6, 20, 100, 1200])
        v = lambda: H.choice(rng, range(-lim, lim + 1), hi=lim) * rng.choice([1, 1, -1]) if H.INTS else rng.randint(-lim, lim)
        r = [v(), v(), rng.choice([0, 1, 2, rng.randint(0, lim), rng.randint(0, lim)]), rng.choice([0, 1, 2, rng.randint(0, lim), rng.randint(0, lim)])]
        xs = [r[0], r[0] + r[2], r[0] + r[2] // 2, r[0] - 1, r[0] + r[2] + 1, r[0] + 1]
        ys = [r[1], r[1] + r[3], r[1] + r[3] // 2, r[1] - 1, r[1] + r[3] + 1, r[1] + r[3] - 1]
        px = lambda: max(-lim, min(lim, rng.choice(xs))) if rng.random() < 0.6 else v()
        py = lambda: max(-lim, min(lim, rng.choice(ys))) if rng.random() < 0.6 else v()
        ops = []
        for _ in range(12):
            a = [px(), py()]
            b = [px(), py()]
            if rng.random() < 0.3:
                b[rng.randint(0, 1)] = a[0] if rng.random() < 0.5 else a[1]
            if rng.random() < 0.25:
                k = rng.randint(0, 1)
                b[k] = a[k]
            ops.append(["hit"] + a + b)
            ops.append(["hit"] + b + a)
        # lines through a corner
        cx, cy = rng.choice(xs[:2]), rng.choice(ys[:2])
        dx, dy = rng.randint(-9, 9), rng.randint(-9, 9)
        for k in (1, 2):
            p = [cx - k * dx, cy - k * dy, cx + dx, cy + dy]
            if all(abs(q) <= 1200 for q in p):
                ops.append(["hit"] + p)
        ops += [["in", px(), py()] for _ in range(6)]
        ops += [["inset", rng.choice([0, 1, -1, 8, -320, r[2] // 2, r[2], rng.randint(-50, 50)]), rng.choice([0, 1, -1, 8, -312, r[3] // 2, r[3] + 3, rng.randint(-50, 50)])]
                for _ in range(6)]
        ops = [o for o in ops if o[0] != "hit" or max(map(abs, o[1:])) <= 1200]
        add(r, ops)
        if rng.random() < 0.5:   # much smaller or larger: the unit is 2^e
            cases[-1]["e"] = rng.choice([-30, -14, -10, -7, -4, -1, 2, 5, 9, 14, 30])
    for c in cases:
        if rng.random() < 0.3:   # zeros of either sign
            c["z"] = rng.getrandbits(16)
    obs = ck.harness("geom", cases)
    for i, o in enumerate(obs):
        if "dead" in o:
            ck.violation("a rectangle operation hung", {"case": cases[i]})
    ck.detail["operations"] = sum(len(o["ops"]) for o in obs)
    ck.samples += [json.dumps({"r": o["r"], "op": o["ops"][0]}) for o in obs[:: len(obs) // 4]]
    ck.validate("TraceGeom", ["C22"], cases, obs, deadlock=False, chunk=8000)


# ------------------------------------------------------------------- overlay
def c23(ck):
    mods = P.edged(ck, ck.pick(150, 2500), hinted=(0, 0, 0), maxbox=6, maxrow=5)
    if len(mods) > ck.pick(350, 6000):
        mods = ck.rng.sample(mods, ck.pick(350, 6000))
    mods += [D.shape(ck.rng, h, []) for h in ([], [1], [2, 1, 3, 1])] + [D.large(ck.rng, 14, edges=8) for _ in range(ck.pick(8, 80))]
    mods += [D.shape(ck.rng, [1] * k, [([1], [k])]) for k in ck.pick([60], [60, 130])] + D.hinted(ck.rng, 60, 80, 130)
    cases, obs = P.observe(ck, mods, overlay=True, views=True)
    P.finish(ck, cases, obs, ["C23"], "places", chunk=1000)


# ------------------------------------------------------------------ notebook
def c24(ck):
    ck.model("MCNotebook", ["Framed", "Recovered", "InOrder"], constants={"MaxLines": ck.pick(4, 6)}, deadlock=False, props=["Ends"])
    mods = [D.shape(ck.rng, [2, 1], [], ) for _ in range(12)]
    odd = ["\nEVCXR_END_CONTENT\n", "\nEVCXR_BEGIN_CONTENT image/svg+xml\n", "EVCXR_END_CONTENT", "\n\n", "a\r\nb", "\r", "{}", "{0}\t%s", "\n"]
    for i, m in enumerate(mods):   # lines that look like the markers
        m["entries"][0]["name"] = cps(odd[i % len(odd)])
        m["entries"][0]["fields"][0]["n"] = cps(odd[(i * 2 + 1) % len(odd)])
    mods += P.pictures(ck, ck.pick(250, 3000)) + [D.wild_module(ck.rng, odd=0.6) for _ in range(ck.pick(150, 2000))]
    cases = [dict({"mod": m}, **({"view": P.a_view(ck.rng)} if i % 3 else {})) for i, m in enumerate(mods)]
    obs = []
    names = {"EVCXR_BEGIN_CONTENT image/svg+xml": -1, "EVCXR_END_CONTENT": -2}
    for lo in range(0, len(cases), 100):
        part = cases[lo:lo + 100]
        path = os.path.join(ck.work, "notebook.in")
        with open(path, "w") as f:
            for c in part:
                f.write(json.dumps(c) + "\n")
        p = subprocess.run([CONF, "notebook", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        blocks = p.stdout.split(b"@@REF ")[1:]
        for i in range(len(part)):
            o = {"ref": [], "lines": [], "ended": False}
            if i < len(blocks):
                head, _, rest = blocks[i].partition(b"\n")
                o["ended"] = rest.endswith(b"@@END\n")
                ids = dict(names)
                num = lambda l: ids.setdefault(l, len(ids))
                o["ref"] = [num(l) for l in json.loads(head).split("\n")]
                body = rest[: -len(b"@@END\n")] if o["ended"] else rest
                o["lines"] = [num(l) for l in body.decode("utf-8", "replace").split("\n")[:-1]] if body.endswith(b"\n") else [-9]
            obs.append(o)
    ck.detail["cells"] = len(obs)
    ck.samples += [P.describe(c)[:400] for c in cases[:3]]
    ck.validate("TraceNotebook", ["C24", "Framed"], cases, obs, deadlock=False, describe=P.describe)


# -------------------------------------------------------------- command line
BIG = 1_000_000_000


FILES = ["file", "file-rel", "file-dot", "file-up", "file-link"]
# the source comes through a pipe, all at once or in pieces
PIPES = ["stdin-pipe", "stdin-pieces", "file-fifo"]
NAMES = [b"\xff\xfe.seiren", b"a b", b"-", b"--", b"--help", b"-h", b"-V", b"--version", b"-o", b"--debug", b"-d", "日本".encode(), b"\\", b"x\ny", b"%s", b"(stdin)", b"stdin",
         b"@file", b"*", b"?", b"~", b"$HOME", b"a.svg", b"a.erd", b"a.png", b"a.gz", b".hidden", b"a#b", b"a:1", b"http:", b"con", b"0", b"1", b" ", b"a ", b"x" * 200, b"help", b"check", b"in", b"out"]


ENVS = [{}, {}, {}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"}, {"TERM": "dumb"}, {"COLUMNS": "20"}, {"LANG": "ja_JP.UTF-8", "LC_ALL": "C"}, {"RUST_BACKTRACE": "full"}, {"RUST_LOG": "trace"},
        {"DEBUG": "1", "SEIREN_DEBUG": "1"}] + [{k: "1"} for k in H.ENV[-len(H.STRINGS) or len(H.ENV):] if k in H.STRINGS] * 3 + [{k: "1" for k in H.ENV if k != "HOME"}]


def run_cli(args):
    """One run of the command in a directory of its own."""
    i, case, base = args
    d = os.path.join(base, f"run{i}")
    os.makedirs(os.path.join(d, "w"))
    try:
        data = case["bytes"]
        argv = [CLI.encode()]
        stdin = subprocess.DEVNULL
        if case["how"] == "stdin":
            with open(os.path.join(d, "in"), "wb") as f:
                f.write(data)
            stdin = open(os.path.join(d, "in"), "rb")
        elif case["how"].startswith("stdin-"):
            stdin = subprocess.PIPE
        elif case["how"] == "missing":
            argv.append(os.path.join(d, "nothing").encode())
        elif case["how"] == "empty":
            argv.append(b"")
        elif case["how"] == "dangling":
            os.symlink(b"nowhere", os.path.join(d.encode(), b"w", b"link"))
            argv.append(b"link")
        elif case["how"] == "dir":
            argv.append(d.encode())
        else:
            name = case.get("name", b"source.seiren")
            path = os.path.join(d.encode(), b"w", name)
            if case["how"] == "file-fifo":
                os.mkfifo(path)
            elif case["how"] == "file-link":
                with open(os.path.join(d, "target"), "wb") as f:
                    f.write(data)
                os.symlink(b"../target", path)
            else:
                with open(path, "wb") as f:
                    f.write(data)
            argv.append({"file-rel": name, "file-dot": b"./" + name, "file-up": b"../w//" + name}.get(case["how"], path))
            if case["how"] == "file+stdin":
                with open(os.path.join(d, "in"), "wb") as f:
                    f.write(b"erd { other { } }")
                stdin = open(os.path.join(d, "in"), "rb")
            if case["how"] == "file+more":
                argv += [b"/nonexistent", b"--x"]
        cap = case["cap"]
        outp = os.path.join(d, "out")
        if case["sink"] == "full":
            out = open("/dev/full", "wb")
        elif case["sink"] == "closed":
            r, w = os.pipe()
            os.close(r)
            out = os.fdopen(w, "wb")
        elif case["sink"] == "pipe":
            out = subprocess.PIPE
        else:
            out = open(outp, "wb")
        err = open(os.path.join(d, "err"), "wb")
        case["file"] = argv[1].decode("utf-8", "replace") if len(argv) > 1 else "(stdin)"

        def limits():
            if case["sink"] == "limit":
                # no signal, only an error, when the file gets too long (SIGXFSZ stays ignored);
                # standard error is far shorter than that or not limited at all
                resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        env = {"PATH": "/usr/bin:/bin", "HOME": d, "RUST_BACKTRACE": "0", **case.get("env", {})}
        if case["sink"] == "limit":
            err.close()
            err = open("/dev/null", "wb")
        p = subprocess.Popen(argv, stdin=stdin, stdout=out, stderr=err, cwd=os.path.join(d, "w"), env=env, restore_signals=False, preexec_fn=limits)
        helpers, piped = [], []

        def feed():
            try:
                n = 1 << 20 if case["how"] != "stdin-pieces" else max(1, min(4096, len(data) // 7))
                f = p.stdin if stdin is subprocess.PIPE else open(path, "wb", buffering=0)
                with f:
                    for k in range(0, len(data), n):
                        f.write(data[k:k + n])
                        f.flush()
                        if n < 1 << 20:
                            time.sleep(0.002)
            except OSError:
                pass

        def drain():
            while True:
                b = p.stdout.read1(999)
                if not b:
                    break
                piped.append(b)

        if stdin is subprocess.PIPE or case["how"] == "file-fifo":
            helpers.append(threading.Thread(target=feed, daemon=True))
        if out is subprocess.PIPE:
            helpers.append(threading.Thread(target=drain, daemon=True))
        for t in helpers:
            t.start()
        try:
            status = p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            status = -99
        if case["how"] == "file-fifo":
            # lets go a writer that nobody reads from
            os.close(os.open(path, os.O_RDONLY | os.O_NONBLOCK))
        for t in helpers:
            t.join(10)
        for f in (out, err):
            if f is not subprocess.PIPE:
                f.close()
        if stdin not in (subprocess.DEVNULL, subprocess.PIPE):
            stdin.close()
        if out is subprocess.PIPE:
            p.stdout.close()
        got = b"".join(piped) if out is subprocess.PIPE else open(outp, "rb").read() if os.path.exists(outp) else b""
        e = open(os.path.join(d, "err"), "rb").read()
        return status, got, e
    finally:
        shutil.rmtree(d, ignore_errors=True)


import re
ANSI = re.compile(rb"\x1b\[[0-9;]*m")


def cli(ck, cases, inv):
    """cases: {"bytes", "how", "sink", "cap"}; cap None stands for just short of the picture by `short`"""
    want = []
    for c in cases:
        try:
            c["src"] = cps(c["bytes"].decode("utf-8"))
            c["readable"] = c["how"] not in ("missing", "dir", "empty", "dangling")
        except UnicodeDecodeError:
            c["src"] = []
            c["readable"] = False
    libs = ck.harness("lib", [{"src": c["src"]} for c in cases])
    for c, l in zip(cases, libs):
        if "dead" in l:
            l.update({"panic": "dead", "some": False, "n": 0, "diags": [], "svg": ""})
        total = len(l["svg"].encode())
        if c["sink"] == "limit":
            c["cap"] = max(0, total - c.get("short", 1)) if l["some"] else 10
        else:
            c["cap"] = 0 if c["sink"] in ("full", "closed") else BIG
    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(run_cli, [(i, c, ck.work) for i, c in enumerate(cases)]))
    obs = []
    for c, l, (status, got, err) in zip(cases, libs, res):
        svgb = l["svg"].encode()
        lines = ANSI.sub(b"", err).split(b"\n")
        obs.append({
            "readable": c["readable"], "diags": l["n"] if c["sink"] != "limit" else 0, "some": l["some"],
            "total": len(svgb), "cap": c["cap"], "libok": l["panic"] == "",
            "status": status, "out": len(got), "prefix": svgb[: len(got)] == got,
            "reports": sum(1 for x in lines if x.startswith(b"Error:")) if c["readable"] and not (c["sink"] == "limit") and status in (0, 1) else
                       sum(1 for x in lines if x.startswith(b"Error: ")) if c["readable"] and c["sink"] != "limit" else 0,
            "stderr": len(err) if c["sink"] != "limit" else 0,
            **({"src": c["src"], "file": cps(c["file"]), "given": l["diags"], "told": told(err)} if inv == "C25" else {}),
        })
    ck.detail["runs_of_the_command"] = ck.detail.get("runs_of_the_command", 0) + len(cases)
    shown = [{"source": c["bytes"].decode("utf-8", "replace")[:2000], "how": c["how"], "sink": c["sink"], "cap": c["cap"]} for c in cases]
    for s in shown[:: max(1, len(shown) // 3)][:3]:
        ck.samples.append(json.dumps(s)[:500])
    ck.validate("TraceCli", [inv, "Delivered", "NothingOfNothing"], shown, obs, deadlock=False, name="cli")


HEAD = re.compile(r"^Error: (.*?)\n +╭─\[(.*?):(\d+):(\d+)\]$", re.S | re.M)


def told(err):
    """The reports on standard error: place, and what they say was expected."""
    out = []
    for m in HEAD.finditer(ANSI.sub(b"", err).decode("utf-8", "replace")):
        msg, found, exp = m.group(1).partition(", expected ")
        exp = [] if exp == "something else" or not found else exp.split(", ")
        out.append({"file": cps(m.group(2)), "line": int(m.group(3)), "col": int(m.group(4)),
                    "msg": msg, "atend": msg == "Unexpected end of input", "exp": exp})
    return out


def c25(ck):
    rng = ck.rng
    model_cli(ck)
    texts = []
    for t in F.corpus() + [source_text(rng) for _ in range(ck.pick(1500, 20000))]:
        if rng.random() < 0.5:
            # more lines, some of them with characters of several bytes
            for _ in range(rng.choice([1, 2, 5])):
                i = rng.randrange(len(t) + 1)
                t = t[:i] + rng.choice(["\n", "\n\n", "\r\n", "\n// é日\U0001F600\n", " `é日` ", "\t", "\n ", "x", "}", "#"]) + t[i:]
        texts.append(t)
    for _ in range(ck.pick(300, 4000)):
        m = G.gen_module(rng, odd=rng.choice([0, 0.3]))
        ls = [x for x in G.join(rng, G.lexemes(rng, m, pad=0.1)).split("\n")]
        i = rng.randrange(len(ls))
        ls[i] = ls[i] + rng.choice([" x y", " }", " {", " #", " . .", " o--o"])
        texts.append(rng.choice(["\n", "\r\n", "\n\n"]).join([rng.choice(["", "// 日本", "\t"])] * rng.choice([0, 1, 9, 10, 99, 120]) + ls) + rng.choice(["", "\n", "\n\n", " "]))
    # many things wrong
    for n in (10, 15, 16, 19, 20, 21, 25, 31, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, ck.pick(256, 1000)):
        wrong = ["# erd", "erd #", "erd { a { # } }", "}", "erd", "`x", "\\", "erd { a b c }", "erd { } erd", "日 # erd"]
        texts.append("\n".join(["# erd"] * n))
        texts.append("\n".join(rng.choice(wrong) for _ in range(n)))
        texts.append(" ".join(rng.choice(["#", "}", "erd {"]) for _ in range(n)))
    for n in H.near(70000):
        for wrong in ("#", "}", "erd {", "x y"):
            texts += ["erd {" + " " * n + wrong, "//" + "x" * n + "\n" + wrong, "erd {}\n" + "// 日" * (n // 4) + "\n" + wrong + "\n" + "// 日" * 9]
        if n < 2100:
            texts += ["\n" * n + "# erd", "erd {" + "\n" * n + "a\nb {", "\n".join(["# erd"] * n), " ".join(["#", "}"] * (n // 2)), "#" * n, "erd { a { " + "x int;" * n + " # } }"]
    texts += [h + rng.choice(["", "\n", " #"]) for h in H.STRINGS] + ["erd { " + h + " # }" for h in H.STRINGS]
    for n in (4097, 65530, ck.pick(66000, 300000)):
        texts += ["erd {" + " " * n + "#", "//" + "日" * n + "\nerd { x y }"]
    # other line breaks are a matter of taste
    plain = lambda t: not re.search("[\x0b\x0c\x85\u2028\u2029]|\r(?!\n)", t)
    texts = [t for t in texts if plain(t)]
    cases = []
    for i, t in enumerate(texts):
        c = {"bytes": t.encode("utf-8"), "how": rng.choice(["stdin", "file", "file+stdin", "file+more"] + FILES + PIPES), "sink": rng.choice(["ok", "ok", "pipe"])}
        if i % 3 == 0 and not c["how"].startswith("stdin"):
            c["name"] = rng.choice([n for n in NAMES if b"\n" not in n] + [b"x:1:2", b"{}", b"e.seiren"])
        c["env"] = rng.choice(ENVS)
        cases.append(c)
    cli(ck, cases, "C25")


def model_cli(ck):
    ck.model("MCCli", ["Delivered", "NothingOfNothing", "OnlyThenDraw"], deadlock=False, props=["Exits"])


def source_text(rng):
    r = rng.random()
    if r < 0.45:
        m = G.gen_module(rng, odd=rng.choice([0, 0.3]))
        return G.join(rng, G.lexemes(rng, m, pad=0.2))
    return G.random_text(rng, [1, 4, 3, 3, 1])


def c21(ck):
    rng = ck.rng
    model_cli(ck)
    cases = []
    for t in F.corpus():
        cases.append({"bytes": t.encode(), "how": rng.choice(["stdin", "file"]), "sink": "ok"})
    for _ in range(ck.pick(900, 12000)):
        cases.append({"bytes": source_text(rng).encode("utf-8", "replace"), "how": rng.choice(["stdin", "file", "file+stdin", "file+more"] + PIPES),
                      "sink": rng.choice(["ok", "pipe"]), "env": rng.choice(ENVS)})
    for t in rng.sample(G.scales(rng), ck.pick(70, 400)):
        cases.append({"bytes": t.encode(), "how": rng.choice(["stdin", "file"] + PIPES), "sink": rng.choice(["ok", "pipe"])})
    # long sources: blank, commented, or with long names, and something to draw at the end
    for n in [4095, 4096, 8191, 8193, 65535, 65537, 131073, 262145, 524289, 600001, 1048577, ck.pick(1300000, 5000000)] + H.near(2000000, 10):
        for fill in ([" ", "\n"] if n > 70000 else [" ", "\n", "// x\n", "// é日\n", "\t "]):
            t = "erd { a { x int }" + fill * ((n + len(fill.encode()) - 1) // len(fill.encode())) + rng.choice(["", "\n", "\r\n", ";"]) + rng.choice(["b { y int }; a o--o b.y }", "\nb { y int }\na o--o b.y }", "\nb { y int } }", "b { y"])
            cases.append({"bytes": t.encode(), "how": rng.choice(["stdin", "file"] + PIPES[:2]) if n < 500000 else rng.choice(["stdin", "stdin-pipe"]), "sink": "ok"})
        cases.append({"bytes": cases[-1]["bytes"], "how": "file", "sink": "ok"})
        for how in ("stdin", "file"):
            cases.append({"bytes": ("erd { a { x int }" + " " * n + "\nb { y int }\na.x o--o b.y }").encode(), "how": how, "sink": "ok"})
    for m in G.scale_modules(rng)[: -1 if not ck.thorough else None]:
        cases.append({"bytes": G.join(rng, G.lexemes(rng, m, pad=0.05)).encode(), "how": rng.choice(["stdin", "file"]), "sink": "ok"})
    valid = lambda: G.join(rng, G.lexemes(rng, G.gen_module(rng, odd=0.1), pad=0.1)).encode()
    for _ in range(ck.pick(25, 200)):
        for sink in ("full", "closed"):
            cases.append({"bytes": valid(), "how": rng.choice(["stdin", "file"]), "sink": sink})
        for short in (1, 2, 3, 5, 6, 7, rng.randint(8, 400), 10 ** 9, 0):
            cases.append({"bytes": valid(), "how": rng.choice(["stdin", "file"]), "sink": "limit", "short": short})
        cases.append({"bytes": b"", "how": rng.choice(["missing", "dir", "empty", "dangling"]), "sink": "ok"})
        bad = bytearray(valid())
        bad[rng.randrange(len(bad)):0] = rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88", b"\xc0\x80"])
        cases.append({"bytes": bytes(bad), "how": rng.choice(["stdin", "file"]), "sink": "ok"})
        cases.append({"bytes": rng.choice([valid(), b"erd { a", b"# erd {}"]), "how": rng.choice(FILES), "name": rng.choice(NAMES), "sink": "ok"})
    # the source is what is read, to the byte: line ends of any make, marks at either end
    for ch in ("\r\n", "\n", "\r", "\t", "\ufeff", "\x00", "\x1a", "  ", "\u2028", "\x85", "\u00a0", "e\u0301", "\r\r\n", "\n\r"):
        for t in ("erd { `a%sb` { `%sx%s` int } }", "%serd { a { x int } }", "erd { a { x int } }%s", "erd { // %s\n a {} }", "erd {%s a {%s} }%s", "erd { a%s"):
            t = t.replace("%s", ch)
            cases += [{"bytes": t.encode(), "how": how, "sink": "ok"} for how in ("file", "stdin")]
    for name in NAMES:
        for how in FILES:
            cases.append({"bytes": b"erd { abc { x int } }" if how != "file-dot" else b"erd { abc { x } }", "how": how, "name": name, "sink": "ok"})
    cli(ck, cases, "C21")


# ---------------------------------------------------------------- everything
def c05(ck):
    rng = ck.rng
    chunks = [text(c) for c in F.model_text(ck, 3)]
    texts = F.corpus() + G.characters() + chunks + (G.scales(rng) if H.NUMBERS or H.STRINGS else [])
    texts += [G.random_text(rng, [2, 4, 3, 3, 3]) for _ in range(ck.pick(5000, 80000))]
    # large and repetitive
    for k in (200, ck.pick(1500, 6000)):
        texts += ["erd {" + "\n" * k + "}", "erd { a { " + "id int;" * (k // 4) + "} }", "{" * k, "`" * k, "//" * k, "#" * k, "erd " * k, "\\" * k,
                  "erd {" + ";".join("e%d{}" % i for i in range(k // 20)) + "}", "erd { " + "a o--o b;" * (k // 8) + " }", "`" + "\\u0041" * (k // 6) + "`"]
    cases = [G.case(t) for t in texts]
    obs = F.observe(ck, cases)
    ck.detail["texts"] = len(cases)
    ck.samples += [t[:200] for t in texts[len(F.corpus()):: len(texts) // 4]]
    small = [i for i, t in enumerate(texts) if len(t) <= 600]
    ck.validate("TraceFront", ["C05"], [cases[i] for i in small], [obs[i] for i in small], describe=F.describe, chunk=25000, view="Where")
    for i, o in enumerate(obs):
        if o["panic"]:
            ck.violation("parsing a large text: " + o["panic"], {"case": cases[i], "described": texts[i][:200]})
    # whatever module comes out is compiled to the end
    mods = [o["ast"] for o in obs if o["some"]]
    seen, uniq = set(), []
    for m in mods:
        k = json.dumps(m)
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    if len(uniq) > ck.pick(2500, 30000):
        uniq = rng.sample(uniq, ck.pick(2500, 30000))
    uniq += [D.wild_module(rng) for _ in range(ck.pick(1500, 20000))] + P.shapes(ck, ck.pick(700, 10000), maxbox=11, maxrow=9)
    # heights beyond what 16 bits can count
    tall = ck.pick(2200, 4000)
    uniq += [D.shape(rng, [tall, 2, 1, 3], [([1, tall], [2]), ([2, 2], [1]), ([1], [4])]), D.shape(rng, [1] * 6 + [tall] + [2] * 3, [([1], [10]), ([7, 3], [7, tall - 5])])]
    mcases, mobs = P.observe(ck, uniq, overlay=True, picture=False)
    for o in mobs:
        for k in ("geo", "routes", "over", "graph", "pic"):
            o.pop(k, None)
    # more rows than fit into sixteen bits; that the compilation ends says enough, so the trace leaves the module out
    broad = [D.shape(rng, [1000] * 70, []), D.shape(rng, [1] * ck.pick(500, 3000), [])]
    broad += [D.shape(rng, [2, 1, 3], [([1], [3, 2]), ([1, 2], [2])] * (n // 2)) for n in (130, 300, 600, ck.pick(1100, 4000))] + D.hinted(rng, 600, 2100, 2100)
    bcases, bobs = P.observe(ck, broad, picture=False, again=False, dress=False)
    for c, o in zip(bcases, bobs):
        ck.samples.append("%d boxes, %d rows" % (len(c["mod"]["entries"]), sum(1 + len(e.get("fields", [])) for e in c["mod"]["entries"])))
        c["mod"] = o["mod"] = D.shape(rng, [1], [])
    mcases, mobs = mcases + bcases, mobs + bobs
    for o in bobs:
        for k in ("geo", "routes", "over", "graph", "pic", "content"):
            o.pop(k, None)
    ck.detail["modules_compiled"] = len(uniq)
    ck.validate("TraceDoc", ["C05"], mcases, mobs, constants={"Goal": '"doc"'}, deadlock=False, name="modules", describe=P.describe, chunk=10000)
    # the command
    model_cli(ck)
    pick = F.corpus() + rng.sample(texts, min(len(texts), ck.pick(900, 12000)))
    cli(ck, [{"bytes": t.encode("utf-8", "replace"), "how": rng.choice(["stdin", "file"]), "sink": "ok"} for t in pick], "C05")


# ---------------------------------------------------------------- the document as a container
def op(o, a=0, b=0, v=(), pts=()):
    return {"op": o, "a": a, "b": b, "v": list(v), "pts": [list(p) for p in pts]}


def edits(rng, n):
    """A random history of n steps."""
    hist, kinds, links = [], [], 0
    pt = lambda: [rng.randint(-5000, 5000), rng.randint(-5000, 5000)]

    def path():
        if rng.random() < 0.3:
            return [], []
        ps = [pt() for _ in range(rng.randint(0, 6))]
        if ps and rng.random() < 0.5:   # a point that occurs more than once
            ps.insert(rng.randint(0, len(ps)), list(rng.choice(ps)))
        return [1], ps

    for _ in range(n):
        k = rng.random()
        m = len(kinds)
        node = lambda: rng.choice([rng.randint(1, m), m, max(1, m - 1), 1])
        if m == 0 or k < 0.2:
            kinds.append(rng.choice(["record", "field", "field"]))
            v = cps("".join(rng.choice("abc<&é日") for _ in range(rng.randint(0, 6)))) if kinds[-1] == "field" else \
                rng.choice([[], [rng.randrange(256) for _ in range(3)]])
            hist.append(op(kinds[-1], v=v))
        elif k < 0.4:
            hist.append(op("child", rng.choice([0, node()]), node()))
        elif k < 0.55:
            links += 1
            hist.append(op("edge", node(), node(), *path()))
        elif k < 0.65 and links:
            hist.append(op("path", rng.choice([1, links, rng.randint(1, links)]), 0, *path()))
        elif k < 0.8:
            which = rng.choice(["at", "size"])
            hist.append(op(which, node(), v=rng.choice([[], pt() if which == "at" else [rng.randint(0, 5000), rng.randint(0, 5000)]])))
        elif k < 0.95:
            hist.append(op("port", node(), rng.randint(1, 4), pt()))
        else:
            hist.append(op("clear", node()))
    return hist


def c27(ck):
    rng = ck.rng
    ck.model("MCMir", ["TypesOk", "Emit"], constants={"MaxOps": ck.pick(4, 5), "EmitAt": 4}, deadlock=False, emit="GEN", props=["Kept"])
    hs = ck.emitted
    ck.detail["histories_from_the_model"] = len(hs)
    if len(hs) > ck.pick(6000, 100000):
        hs = rng.sample(hs, ck.pick(6000, 100000))
    hs = hs + [edits(rng, rng.choice([6, 12, 25, 60])) for _ in range(ck.pick(600, 8000))] + [edits(rng, 400) for _ in range(ck.pick(3, 40))]
    # more nodes than fit into sixteen bits; more connection points on one node than fit into eight
    for n in ck.pick([300, 70000], [255, 256, 300, 65535, 65536, 70000, 200000]) + H.near(200000, 2):
        h = edits(rng, 40)
        hs.append(h[:15] + [op("fill", v=[n])] + h[15:30] + [op("fill", v=[3])] + h[30:])
    h = [op("record"), op("field", v=[97]), op("child", 1, 2), op("at", 2, v=[8, 8]), op("port", 1, 2, v=[8, 16])]
    hs.append(h + [op("port", 2, rng.randint(1, 4), v=[rng.randint(-500, 500), rng.randint(-500, 500)]) for _ in range(ck.pick(300, 700))] + [op("port", 1, 1, v=[8, 8])])
    hs += [edits(rng, n) for n in H.near(1100, 2)]
    for n in H.near(700, 2):
        hs.append(h + [op("edge", 1, 2, [1], [[rng.randint(-5000, 5000), rng.randint(-5000, 5000)] for _ in range(n)])] + [op("edge", rng.randint(1, 2), 2)] * n
                  + [op("child", 0, 1)] * n + [op("path", 1, 0, [1], [[1, 1]] * n)])
        hs.append(h + [op("port", 2, rng.randint(1, 4), v=[rng.randint(-500, 500), n]) for _ in range(n)])
    cases = [{"hist": h} for h in hs]
    obs = ck.harness("mir", cases)
    obs = [o if "steps" in o else {"steps": [{"panic": o["dead"], "step": c["hist"][0], "nodes": [], "nports": 0, "body": [], "edges": [], "fresh": False, "more": 0, "distinct": 0}]}
           for c, o in zip(cases, obs)]
    ck.samples += [json.dumps(h)[:400] for h in hs[:: len(hs) // 4]][:4]
    ck.validate("TraceMir", ["C27"], cases, obs, deadlock=False, chunk=4000)


# ---------------------------------------------------------------- modules and definitions
def mop(o, a=0, b=0, c=0, v=(), f=None, p=(), q=()):
    return {"op": o, "a": a, "b": b, "c": c, "v": list(v), "f": f or {"n": [], "t": "", "k": ""}, "p": list(p), "q": list(q)}


def put_together(rng, n):
    hist, mods, drafts = [], [], []
    names = ["a", "b", "c", "a.b", "日", "A", ""] if rng.random() < 0.5 else ["a", "b"]
    name = lambda: cps(rng.choice(names))
    many = rng.choice([1, 1, 3])
    for _ in range(n):
        k = rng.random()
        one = lambda l: rng.choice([len(l), rng.randint(1, len(l)), 1])
        if not mods or k < 0.05:
            hist.append(mop("new", v=[name()] if rng.random() < 0.6 else []))
            mods.append(0)
        elif not drafts or k < 0.13:
            hist.append(mop("draft", v=[name()]))
            drafts.append(0)
        elif k < 0.35:
            hist.append(mop("field", one(drafts), f={"n": name(), "t": rng.choice(["int", "uuid", "text", "timestamp"]), "k": rng.choice(["", "PK", "FK"])}))
        elif k < 0.38:
            hist.append(mop("draftcopy", one(drafts)))
            drafts.append(0)
        elif k < 0.58:
            a = one(mods)
            hist.append(mop("put", a, one(drafts)))
            mods[a - 1] += 1
        elif k < 0.78:
            a = one(mods)
            end = lambda: [name()] if rng.random() < 0.4 else [name(), name()]
            hist.append(mop("rel", a, p=end(), q=end()))
            mods[a - 1] += 1
        elif k < 0.83:
            a, b = one(mods), one(mods)
            if mods[b - 1]:
                hist.append(mop("entry", a, b, rng.randint(1, mods[b - 1])))
                mods[a - 1] += 1
        elif k < 0.87 and len(mods) < 2 + many:
            a = one(mods)
            hist.append(mop("copy", a))
            mods.append(mods[a - 1])
        else:
            hist.append(mop("make", one(mods)))
    return hist


def c31(ck):
    rng = ck.rng
    ck.model("MCEdits", ["DocsSound", "Emit"], constants={"MaxOps": ck.pick(5, 6), "EmitAt": 5}, deadlock=False, emit="GEN", props=["Grows"])
    hs = ck.emitted
    ck.detail["histories_from_the_model"] = len(hs)
    if len(hs) > ck.pick(6000, 100000):
        hs = rng.sample(hs, ck.pick(6000, 100000))
    hs = hs + [put_together(rng, rng.choice([8, 15, 30, 60])) for _ in range(ck.pick(800, 10000))]
    for n in ck.pick([150, 300], [150, 300, 300, 700, 1200]) + [3 * k for k in H.near(300, 2)]:
        h = [s for s in put_together(rng, n) if s["op"] not in ("make", "copy", "entry")]
        hs.append(h + [mop("make", 1), mop("copy", 1), mop("make", 1)])
    cases = [{"hist": h} for h in hs]
    obs = ck.harness("module", cases)
    obs = [o if "steps" in o else {"steps": [{"panic": o["dead"], "step": c["hist"][0], "mods": [], "drafts": [], "docs": [], "prints": []}]}
           for c, o in zip(cases, obs)]
    ck.samples += [json.dumps([(s["op"], s["a"], s["b"]) for s in h])[:400] for h in hs[:: len(hs) // 4]][:4]
    ck.validate("TraceModule", ["C31"], cases, obs, deadlock=False, chunk=4000)


# ---------------------------------------------------------------- points and paths
def c29(ck):
    rng = ck.rng
    ck.model("MCPath", ["HasStart", "Recorded", "Emit"], constants={"MaxCommands": ck.pick(4, 5)}, deadlock=False, emit="GEN", props=["Grows"])
    fs = ck.emitted
    ck.detail["paths_from_the_model"] = len(fs)
    if len(fs) > 30000:
        fs = rng.sample(fs, 30000)
    # the first command is given with the creation
    cases = [{"r": [0, 0, 8, 8], "ops": [["path"] + f[1:] for f in fs[i:i + 20]]} for i in range(0, len(fs), 20)]
    n = ck.pick(7, 10)
    pts = [(x - n // 2, y - n // 2) for x in range(n) for y in range(n)]
    for a in pts:
        cases.append({"r": [0, 0, 8, 8], "ops": [["dist", *a, *b] for b in pts]
                      + [["dir", *a, *b] for b in pts if a != b and (a[0] == b[0] or a[1] == b[1])]})
    for _ in range(ck.pick(600, 10000)):
        ops = []
        v = lambda k: rng.randint(-k, k)
        for _ in range(6):
            a, b = [v(5000), v(5000)], [v(180), v(180)] if not H.INTS or rng.random() < 0.7 else [H.choice(rng, [1, 2], hi=180, p=1), rng.choice([0, v(180)])]
            ops.append(["dist", *a, a[0] + b[0], a[1] + b[1]])
            b[rng.randint(0, 1)] = 0
            if any(b):
                ops.append(["dir", *a, a[0] + b[0], a[1] + b[1]])
                ops.append(["dist", *a, a[0] + b[0], a[1] + b[1]])
        # long and narrow
        for _ in range(4):
            a, m = [v(50000), v(50000)], rng.choice([1, -1]) * rng.randint(2000, 100000)
            n = v(abs(m) // rng.choice([9, 20, 90, 400, 900]))
            b = [m, max(-2000, min(2000, n))]
            if rng.random() < 0.5:
                b.reverse()
            ops.append(["far", *a, a[0] + b[0], a[1] + b[1]])
        for _ in range(4):
            f = ["path", v(9000), v(9000)]
            for _ in range(H.choice(rng, [0, 1, 1, 2, 3, 5, 12, 40], hi=600)):
                k = rng.choice([1, 2, 2, 3])
                f += [k] + [rng.choice([v(9000), v(9000), f[-1], 0, 1, 2, 3]) for _ in range(4 if k == 3 else 2)]
            ops.append(f)
        cases.append({"r": [0, 0, 8, 8], "ops": ops})
        if rng.random() < 0.5:
            cases[-1]["e"] = rng.choice([-30, -14, -10, -7, -4, -1, 2, 5, 9, 14, 30])
    for c in cases:
        if rng.random() < 0.3:   # zeros of either sign
            c["z"] = rng.getrandbits(16)
    obs = ck.harness("geom", cases)
    obs = [o if "ops" in o else {"r": c["r"], "sides": [], "ops": [{"k": "dir", "arg": [], "panic": o["dead"], "res": {}}]} for c, o in zip(cases, obs)]
    ck.samples += [json.dumps(c)[:300] for c in cases[-4:]]
    ck.validate("TraceGeom", ["C29"], cases, obs, deadlock=False)


# ---------------------------------------------------------------- the route graph as a container
def puts(rng, n, spread):
    """A random history of n steps of a route graph."""
    hist, nodes = [], set()
    put = lambda o, a=0, b=0, v=(): hist.append({"op": o, "a": a, "b": b, "v": list(v)})
    pool = [[rng.randint(-spread, spread), rng.randint(-spread, spread)] for _ in range(max(2, n // 4))]
    pool += [[p[0], rng.choice(pool)[1]] for p in pool] + [[0, 0], [0, 8], [8, 0]]
    for _ in range(n):
        k = rng.random()
        m = len(nodes)
        if m == 0 or k < 0.3:
            v = rng.choice(pool)
            put("node", v=v)
            nodes.add((tuple(v), 0))
        elif k < 0.55:
            v, d = rng.choice(pool), rng.randint(1, 4)
            put("port", rng.randint(1, 4), d, v)
            nodes.add((tuple(v), d))
        elif k < 0.95:
            put("link", rng.choice([rng.randint(1, m), m, 1]), rng.choice([rng.randint(1, m), m, 1]))
        else:
            put("fork")
    if rng.random() < 0.5:
        for s in hist:   # zeros of either sign are one place
            s["z"] = rng.choice([0, 0, 1, 2, 3])
    return hist


def level(rng, n):
    """A grid of junctions with connections along its lines only."""
    hist = []
    put = lambda o, a=0, b=0, v=(): hist.append({"op": o, "a": a, "b": b, "v": list(v)})
    spots = [[8 * x * rng.choice([1, 5]), 8 * y] for x in range(n) for y in range(n)]
    spots = [list(t) for t in {tuple(s) for s in spots}]
    rng.shuffle(spots)
    for v in spots:
        put("node", v=v)
    for _ in range(4 * n):
        a, b = rng.sample(range(len(spots)), 2)
        if spots[a][0] == spots[b][0] or spots[a][1] == spots[b][1]:
            put("link", a + 1, b + 1)
    return hist


def graph_star(rng, n):
    """One junction with n links, and a connection point for every one."""
    hist = [{"op": "node", "a": 0, "b": 0, "v": [0, 0]}]
    for i in range(n):
        port = rng.random() < 0.5
        hist += [{"op": "port" if port else "node", "a": port * rng.randint(1, 4), "b": port * rng.randint(1, 4), "v": [8 * (i + 1), 0]}, {"op": "link", "a": rng.choice([1, i + 1]), "b": i + 2, "v": []}]
        if rng.random() < 0.5:
            hist.append({"op": "link", "a": 1, "b": i + 2, "v": []})
    return hist


def c30(ck):
    rng = ck.rng
    ck.model("MCGraph", ["Different", "OnceLinked", "EndsThere", "PortsThere", "Emit"],
             constants={"MaxOps": ck.pick(4, 5), "EmitAt": 4}, deadlock=False, emit="GEN", props=["OnlyGrows"])
    hs = ck.emitted
    ck.detail["histories_from_the_model"] = len(hs)
    if len(hs) > ck.pick(5000, 60000):
        hs = rng.sample(hs, ck.pick(5000, 60000))
    hs = hs + [puts(rng, rng.choice([6, 12, 25, 60]), rng.choice([2, 16, 5000])) for _ in range(ck.pick(600, 8000))]
    hs += [[dict(s, z=rng.choice([0, 1, 2, 3])) for s in h] for h in rng.sample(hs, min(len(hs), ck.pick(1000, 10000)))]
    hs += [puts(rng, n, rng.choice([16, 5000])) for n in H.near(700, 2)] + [graph_star(rng, n) for n in [12] + H.near(300, 2)]
    hs += [puts(rng, 400, 5000) for _ in range(ck.pick(3, 30))] + [level(rng, rng.randint(2, 7)) for _ in range(ck.pick(150, 2000))]
    cases = [{"hist": h} for h in hs]
    obs = []
    for c, o in zip(cases, ck.harness("graph", cases)):
        if "steps" not in o:
            o = {"steps": [{"panic": o["dead"], "step": c["hist"][0]}]}
        for s in o["steps"]:
            if s["panic"] == "":
                w = s["over"].pop("svg")
                s["over"]["pic"] = svg.read(w) if w else {"wf": False, "els": []}
        obs.append(o)
    ck.samples += [json.dumps(h)[:400] for h in hs[:: len(hs) // 4]][:4]
    ck.validate("TraceGraph", ["C30", "Shows"], cases, obs, deadlock=False, chunk=3000)
