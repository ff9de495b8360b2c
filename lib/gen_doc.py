"""Modules for the later stages.  Names are code points."""
import gen_front as G
from core import cps
import hints as H

TYPES = G.TYPES


def shape(rng, hs, edges, name=lambda r: None):
    """A module with boxes of hs rows (header included) and edges between references."""
    names = ["e%d" % (i + 1) for i in range(len(hs))]
    entries = []
    for i, h in enumerate(hs):
        fs = [{"n": cps("f%d" % (j + 1)), "t": rng.choice(TYPES), "k": rng.choice(["", "PK", "FK"])} for j in range(h - 1)]
        entries.append({"k": "def", "name": cps(names[i]), "fields": fs})
    rels = []
    for a, b in edges:
        p = lambda r: [cps(names[r[0] - 1])] + ([cps("f%d" % (r[1] - 1))] if len(r) > 1 else [])
        rels.append({"k": "rel", "a": p(a), "b": p(b)})
    if rng.random() < 0.3:
        rng.shuffle(rels)
        pos = rng.randint(0, len(entries))
        entries[pos:pos] = rels
    else:
        entries += rels
    return {"name": [cps("m")] if rng.random() < 0.3 else [], "entries": entries}


def random_shape(rng, maxbox=7, maxrow=7, maxedge=6):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11][:maxbox + 5]) if maxbox > 6 else rng.randint(1, maxbox)
    n = min(n, maxbox)
    hs = [rng.choice([1, 1, 2, 3, 4, 5, 7, 10][:maxrow + 1]) for _ in range(n)]
    hs = [min(h, maxrow) for h in hs]
    # a reference to a header row cannot be written
    refs = [[i + 1] for i in range(n)] + [[i + 1, j] for i in range(n) for j in range(2, hs[i] + 1)]
    k = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    edges = [(rng.choice(refs), rng.choice(refs)) for _ in range(min(k, maxedge))] if refs else []
    return hs, edges


def random_module(rng, **kw):
    """Regular: the boxes have distinct names."""
    return shape(rng, *random_shape(rng, **kw))


def wild_module(rng, odd=0.2):
    """Repeated names, relations that lead nowhere."""
    m = G.gen_module(rng, big=rng.random() < 0.1, odd=odd)
    return encode(m)


def encode(m):
    out = {"name": [cps(x) for x in m["name"]], "entries": []}
    for e in m["entries"]:
        if e["k"] == "def":
            out["entries"].append({"k": "def", "name": cps(e["name"]),
                                   "fields": [{"n": cps(f["n"]), "t": f["t"], "k": f["k"]} for f in e["fields"]]})
        else:
            out["entries"].append({"k": "rel", "a": [cps(x) for x in e["a"]], "b": [cps(x) for x in e["b"]]})
    return out


def rename(m, f):
    """The module with every name x replaced by f(x)."""
    g = lambda x: f(tuple(x))
    return {"name": [g(x) for x in m["name"]],
            "entries": [
                {"k": "def", "name": g(e["name"]), "fields": [dict(x, n=g(x["n"])) for x in e["fields"]]}
                if e["k"] == "def" else {"k": "rel", "a": [g(x) for x in e["a"]], "b": [g(x) for x in e["b"]]}
                for e in m["entries"]]}


LETTERS = ["abcdefgh", "XYZ", "0123456789", "_", " ", "<&>\"'", "éßñ", "日本語表", "\U0001F600\U0001F9D1", "\u0301\u200d\u202e"]


def dress(rng, m):
    """The module under names of another make: long, wide, of one kind of letter, digits, keywords."""
    n = H.choice(rng, [1, 2, 8, 20, 33, 64, 130, 300], hi=3000)
    kinds = [rng.choice(LETTERS) for _ in range(rng.choice([1, 1, 2, 4]))]
    names, used = {}, set()

    def f(x):
        while x not in names:
            k = rng.choice([n, rng.randint(1, n), 3])
            y = "".join(rng.choice(rng.choice(kinds)) for _ in range(k))
            if rng.random() < 0.1:
                y = rng.choice(H.STRINGS + ["erd", "int", "o--o", "PK", "", "a.b", "e1", "e1.f1", "#", "{"])
            if y in used:
                y += str(len(used))
            if y not in used:
                used.add(y)
                names[x] = cps(y)
        return names[x]

    return rename(m, f)


def hinted(rng, boxes=520, rows=520, edges=1100):
    """What the sources suggest: see hints.py."""
    out = []
    for n in H.near(max(boxes, rows, edges), 2):
        if n <= boxes:
            hs = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
            rs = refs(hs)
            out.append(shape(rng, hs, [(rs[0], [n]), ([n], [n - 1])] + [(rng.choice(rs), rng.choice(rs[-9:])) for _ in range(3)]))
            # behind that many boxes, a lot of traffic between the last ones
            hs += [rng.choice([2, 3, 4]) for _ in range(rng.randint(6, 30))]
            rs = [r for r in refs(hs) if r[0] > n - 3]
            out.append(shape(rng, hs, [(rng.choice(rs), rng.choice(rs)) for _ in range(14)]))
        if n <= rows:
            hs = [rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 3, 4, 6]))]
            k = rng.randrange(len(hs))
            hs[k] = n
            rs = refs(hs)
            out.append(shape(rng, hs, [([k + 1, n], [1 if k else 2]), (rng.choice(rs), [k + 1, n - 1] if n > 2 else [k + 1])] + [(rng.choice(rs), rng.choice(rs)) for _ in range(2)]))
        if n <= edges:
            hs = [rng.choice([1, 2, 3]) for _ in range(4)]
            rs = refs(hs)
            out.append(shape(rng, hs, [(rng.choice(rs), rng.choice(rs)) for _ in range(n)]))
    return out


def scale_modules(rng, full=False):
    return [encode(m) for m in G.scale_modules(rng, full)]


def tall(rng):
    """Numbers of rows that are larger than usual, for some boxes."""
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 19, 20, 25])
    hs = [rng.choice([1, 2, 3, 5]) for _ in range(n)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        hs[rng.randrange(n) if rng.random() < 0.5 else rng.randrange(max(0, n - 3), n)] = H.choice(rng, [9, 11, 16, 17, 21, 31, 32, 33, 41, 51, 64, 65, 101, 129], hi=520)
    return hs


def refs(hs):
    return [[i + 1] for i in range(len(hs))] + [[i + 1, j] for i in range(len(hs)) for j in range(2, hs[i] + 1)]


def large(rng, maxbox, maxrow=6, edges=12, tallest=40):
    """Many boxes, some of them tall, edges all over the picture."""
    n = rng.randint(max(2, maxbox // 2), maxbox)
    hs = [rng.choice([1, 1, 2, 3, maxrow]) for _ in range(n)]
    if rng.random() < 0.6:
        hs[rng.randrange(n)] = rng.randint(maxrow, tallest)
    rs = refs(hs)
    end = lambda: rng.choice(rs) if rng.random() < 0.6 else rng.choice([rs[0], [n], [n, hs[-1]] if hs[-1] > 1 else [n], [1, hs[0]] if hs[0] > 1 else [1]])
    return shape(rng, hs, [(end(), end()) for _ in range(rng.randint(1, edges))])


# ------------------------------------------------ documents put together by hand
ALPHA = ["a", "b", "Z", "0", "_", " ", "<", "&", ">", "\"", "'", "é", "日", "\U0001F600", "\x01", "\n"]
TURNS = {"U": "LR", "D": "LR", "L": "UD", "R": "UD"}
STEP = {"U": (0, -1), "D": (0, 1), "L": (-1, 0), "R": (1, 0)}


def walk(rng, n, short=0.4, turns=0.75):
    """An orthogonal line of n pieces that never turns back; lengths are even."""
    # some are far away
    far = rng.choice([1] * 6 + [4, 10, 25, 120])
    x, y = [v if far == 1 or rng.random() < 0.3 else v // 4 * 4 for v in (far * rng.randint(-2000, 6000), far * rng.randint(-2000, 6000))]
    d = rng.choice("UDLR")
    pts = [[x, y]]
    for i in range(n):
        if i and rng.random() < turns:
            d = rng.choice(TURNS[d])
        k = H.choice(rng, [2, 4, 6, 8, 16, 40, 88, 94, 96, 98, 100, 104], hi=80000, mul=rng.choice([2, 8]) if H.INTS else 1) if rng.random() < short else 2 * rng.randint(1, 1500)
        x, y = x + STEP[d][0] * k, y + STEP[d][1] * k
        pts.append([x, y])
    return pts


def all_turns():
    """Every pair of directions with every combination of piece lengths around the limits."""
    out = []
    ls = [2, 46, 48, 50, 94, 96, 98, 200]
    for d in "UDLR":
        for e in TURNS[d] + d:
            for k in ls:
                for m in ls:
                    p = [1000, 1000]
                    q = [p[0] + STEP[d][0] * k, p[1] + STEP[d][1] * k]
                    out.append([p, q, [q[0] + STEP[e][0] * m, q[1] + STEP[e][1] * m]])
    return out


def fence(rng, between=lambda rng: H.choice(rng, [10, 15, 19, 20, 21, 24, 25, 26, 30, 33, 50, 64, 100, 130], hi=300), n=None):
    """A tall box that no edge touches, with ends on both sides of it."""
    n = n or rng.randint(3, 16)
    hs = [rng.choice([1, 1, 2, 3, 5]) for _ in range(n)]
    t = rng.randrange(n)
    hs[t] = between(rng)
    base = next(b for b in range(1, n + 1) if b * b >= n)
    rs = [r for r in refs(hs) if r[0] != t + 1]
    near = [r for r in rs if abs(r[0] - 1 - t) in (1, base, base - 1, base + 1)] or rs
    return hs, [(rng.choice(near), rng.choice(near if rng.random() < 0.7 else rs)) for _ in range(rng.randint(1, 4))]


def styled(rng, maxbox=4, maxrow=4, missing=0.0, edges=3):
    """A document with styles, places and paths of any kind."""
    byte = lambda: H.choice(rng, [0, 1, 9, 10, 15, 16, 17, 127, 128, 159, 160, 254, 255], hi=255) if rng.random() < 0.5 else rng.randrange(256)
    colour = lambda p=0.6: [] if rng.random() > p else rng.choice([[-1], [-2]] + [[byte(), byte(), byte()] for _ in range(4)])
    word = lambda: cps("".join(rng.choice(ALPHA if rng.random() < 0.3 else "abcxyz") for _ in range(H.choice(rng, [0, 1, 2, 5, 9, 17, 33], hi=1100, p=0.05)))) if not H.STRINGS or rng.random() < 0.9 else cps(rng.choice(H.STRINGS))
    some = lambda xs, p=0.5: rng.choice(xs) if rng.random() < p else ""

    def font():
        return {"family": some(["SansSerif1", "SansSerif2", "SansSerif3", "Monospace1", "Monospace2"]),
                "weight": some(["normal", "bold", "lighter", "bolder"]),
                "size": some(["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "xxx-large"])}

    span = lambda: {"text": word(), "color": colour(), "font": font()}

    def place(w=None):
        at = [rng.randint(-4000, 8000), rng.randint(-4000, 8000)]
        size = [5 * 8 * H.choice(rng, range(4, 201), lo=4, hi=2000) if rng.random() < 0.5 else 5 * rng.randint(40, 900), 2 * rng.randint(48, 500)]
        p = {"at": at, "size": size}
        if rng.random() < missing:
            for k in rng.choice([["at"], ["size"], ["at", "size"]]):
                p[k] = []
        return p

    boxes = []
    for _ in range(rng.randint(0, maxbox)):
        rows = []
        for _ in range(rng.randint(0, maxrow)):
            rows.append(dict(place(), title=span(), sub=[span()] if rng.random() < 0.5 else [],
                             badge=[{"text": word(), "color": colour(), "bg": colour()}] if rng.random() < 0.5 else [],
                             bg=colour(0.4), border=colour(0.5)))
        boxes.append(dict(place(), bg=colour(), border=colour(), rows=rows))
    refs = [[i + 1] for i in range(len(boxes))] + [[i + 1, j + 1] for i, b in enumerate(boxes) for j in range(len(b["rows"]))]
    es = []
    for _ in range(rng.randint(0, edges) if refs else 0):
        pts = [] if rng.random() < missing else walk(rng, H.choice(rng, [1, 1, 2, 3, 4, 5, 8, 13, 30], hi=520))
        es.append({"a": rng.choice(refs), "b": rng.choice(refs), "pts": pts})
    view = [] if rng.random() < 0.2 else [rng.randint(-4000, 4000), rng.randint(-4000, 4000), rng.randint(1, 90000), rng.randint(1, 90000)]
    return {"view": view, "boxes": boxes, "edges": es, "late": rng.random() < 0.5}


def lines(pts_list, per=12):
    """Documents of one box whose edges have these paths."""
    b = lambda: {"at": [0, 0], "size": [800, 400], "bg": [], "border": [], "rows": []}
    return [{"view": [0, 0, 8000, 8000], "boxes": [b()], "edges": [{"a": [1], "b": [1], "pts": p} for p in pts_list[i:i + per]],
             "late": False} for i in range(0, len(pts_list), per)]


def placed(rng):
    """Boxes and rows at any places, some without one; points placed some times; then some of them moved."""
    c = styled(rng, maxbox=rng.choice([2, 5, 9]), maxrow=rng.choice([2, 4, 9]), missing=rng.choice([0, 0, 0.15]), edges=2)
    spots = [(i + 1, 0, b) for i, b in enumerate(c["boxes"])] + [(i + 1, j + 1, r) for i, b in enumerate(c["boxes"]) for j, r in enumerate(b["rows"])]
    for _, _, n in spots:
        if n["size"]:
            n["size"] = [2 * rng.choice([0, 1, 2, rng.randint(0, 60), rng.randint(0, 9000)]) if rng.random() < 0.3 else x // 2 * 2 for x in n["size"]]
    moves = []
    for i, j, n in spots:
        if rng.random() < 0.3:
            moves.append({"box": i, "row": j, "at": [] if rng.random() < 0.3 else [rng.randint(-4000, 8000), rng.randint(-4000, 8000)],
                          "size": [] if rng.random() < 0.3 else [2 * rng.randint(0, 3000), 2 * rng.randint(0, 3000)]})
    return dict(c, times=rng.choice([0, 1, 1, 2, 3]), moves=moves)


def grids(rng):
    """Documents put together by hand and laid out by the engine, in one go or bit by bit: see TraceGrid.tla."""
    few = rng.choice([[0, 0, 0, 1], [0, 1, 2, 3, 5, 9], [0, 0, 2, 30], [1, 2, 3]])
    if H.INTS and rng.random() < 0.1:
        few = [0, 0, 1, 1, 1, 2, 3, H.choice(rng, [30], hi=300, p=1)]
    rounds, n = [], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        hs = [rng.choice(few) for _ in range(H.choice(rng, [0, 1, 2, 3, 3, 4, 6, 7, 9, 13], hi=70, p=0.1))]
        n += len(hs)
        places = [{"box": rng.randint(1, n), "at": [rng.randint(-4000, 8000), rng.randint(-4000, 8000)],
                   "size": [2 * rng.randint(0, 3000), 2 * rng.randint(0, 3000)]} for _ in range(rng.choice([0, 1, 2]) if n else 0)]
        rounds.append({"boxes": [{"rows": h} for h in hs], "edges": [], "engine": rng.random() < 0.7, "places": places})
    rounds[-1].update(engine=True, places=[])
    return {"rounds": rounds}


def roads(rng, maxbox=9, maxedge=5):
    """Documents put together by hand, to be routed: see TraceRoute.tla."""
    kind = rng.choice(["engine", "wide", "wide", "anywhere"])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 16])
    n = min(n, maxbox)
    U = 8
    hs = [rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 11]) for _ in range(n)]
    if n > 1 and rng.random() < 0.2:   # some tall
        for _ in range(rng.choice([1, 1, 2])):
            hs[rng.randrange(n)] = H.choice(rng, [15, 19, 20, 21, 25, 33, 50, 65, 100], hi=200)
    if kind == "anywhere":
        hs = [max(1, min(h, 11)) for h in hs]
    rs = [[i + 1] for i in range(n)] + [[i + 1, j + 1] for i in range(n) for j in range(hs[i])]
    end = lambda rs: rng.choice(rs)
    edge = lambda rs: (lambda a: [a, a if rng.random() < 0.06 else end(rs)])(end(rs))

    def wide(ns):
        """Places in columns and rows with at least a gap between them."""
        cols = rng.choice([1, 2, 2, 3, 3, 4, 5])
        gap = lambda: U * H.choice(rng, [80, 80, 81, 90, 100, 160, 240, 555], lo=80, hi=1500)
        ws = [2 * U * H.choice(rng, [50, 60, 75, 100, 150, 150, 151, 299], lo=50, hi=1500) for _ in range(cols)]
        x0, y = U * rng.choice([50, 0, 50, 137, -60, -1000, 3000]), U * rng.choice([50, 0, 50, 211, -75, -1000, 3000])
        xs = [x0]
        for w in ws[:-1]:
            xs.append(xs[-1] + w + gap())
        out, tall, k = [], 0, 0
        holes = rng.random() < 0.3
        for i in ns:
            while holes and rng.random() < 0.2:
                k += 1
            if k and k % cols == 0 or k // cols > (out[-1]["cell"] // cols if out else 0):
                y += tall + (gap() if tall or out else 0)
                tall = 0
            h = 35 * U * hs[i]
            out.append({"box": i + 1, "at": [xs[k % cols], y], "size": [ws[k % cols], h], "cell": k})
            tall = max(tall, h)
            k += 1
        return out

    def anywhere(ns):
        out = []
        for i in ns:
            for _ in range(60):
                size = [2 * U * rng.randint(30, 160), 35 * U * hs[i]]
                at = [U * rng.randint(-900, 1500), U * rng.randint(-900, 1500)]
                if all(at[0] + size[0] + 80 * U <= p["at"][0] or p["at"][0] + p["size"][0] + 80 * U <= at[0]
                       or at[1] + size[1] + 80 * U <= p["at"][1] or p["at"][1] + p["size"][1] + 80 * U <= at[1] for p in out):
                    out.append({"box": i + 1, "at": at, "size": size})
                    break
        return out

    def bounds(ps):
        if not ps:
            return [0, 0, 0, 0]
        m = 50 * U
        x1, y1 = min(p["at"][0] for p in ps) - m, min(p["at"][1] for p in ps) - m
        x2, y2 = max(p["at"][0] + p["size"][0] for p in ps) + m, max(p["at"][1] + p["size"][1] for p in ps) + m
        return [x1, y1, x2 - x1, y2 - y1]

    rounds, done = [], 0
    times = rng.choice([1, 1, 2, 3])
    for t in range(times):
        upto = n if t == times - 1 else rng.randint(done, n)
        boxes = [{"rows": h} for h in hs[done:upto]]
        done = upto
        here = [r for r in rs if r[0] <= done]
        r = {"boxes": boxes, "edges": [edge(here) for _ in range(rng.randint(0, maxedge))] if here else []}
        # nothing is left over from another kind of placement before
        how = kind if t == times - 1 or kind == "engine" else rng.choice(["engine", kind, "none"])
        ns = range(done)
        if how == "engine":
            r["engine"] = True
        if how in ("wide", "anywhere"):
            some = [i for i in ns if t == times - 1 or rng.random() < 0.8]
            if t == 0 and times == 1 and rng.random() < 0.15:
                some = [i for i in some if rng.random() < 0.8]
            r["places"] = wide(some) if how == "wide" else anywhere(some)
            r["vb"] = bounds(r["places"])
        rounds.append(dict({"places": [], "engine": False}, **r))
    if kind == "anywhere":
        # every box has a place of this round, or none at all
        last = {p["box"] for p in rounds[-1]["places"]}
        rounds = rounds[-1:] if len(last) == n else [dict(rounds[-1])]
        rounds[0]["boxes"] = [{"rows": h} for h in hs]
    return {"rounds": rounds, "grid": kind != "anywhere", "shape": hs,
            "ends": [e for r in rounds for e in r["edges"]]}
