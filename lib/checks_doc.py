"""C07 to C16: module to document, layout, routes and picture."""
import itertools, json
import gen_doc as D
import gen_front as G
import svg
from core import cps, text, ToolError

EMPTY = {"content": {"boxes": [], "edges": []}, "vb": [], "shown": [], "geo": [], "routes": [],
         "pic": {"wf": False, "why": "", "view": [], "els": []}}
SVGS = {}


def a_view(rng):
    """A view box in eighths: usual, shifted, fractional, tiny, huge, none."""
    if rng.random() < 0.2:
        return []
    n = rng.choice([1, 8, 80, 4000, 100000])
    x = lambda lo: rng.choice([0, 0, 8, 1, 7]) if rng.random() < 0.3 else rng.randint(lo * n, n) * rng.choice([1, 1, 8])
    return [x(-1), x(-1), x(0), x(0)]


def observe(ck, mods, overlay=False, picture=True, again=True, channels=False, views=False, dress=True):
    # some modules have names of another make; which boxes there are and where does not depend on names
    if dress:
        mods = [D.dress(ck.rng, m) if i % 6 == 4 else m for i, m in enumerate(mods)]
    cases = [dict({"mod": m}, **({"overlay": 1} if overlay else {}), **({"channels": 1} if channels else {})) for m in mods]
    if again:
        # some documents were laid out before
        for i, c in enumerate(cases):
            if i % 4 == 1:
                c["again"] = 1 + i % 8 // 4
            # and some come after another document of the same engine
            if i % 5 == 3:
                c["before"] = mods[ck.rng.randrange(len(mods))] if i % 10 == 3 else D.shape(ck.rng, [2, 3, 1], [([1], [2, 2]), ([3], [3])])
    if views:
        for i, c in enumerate(cases):
            if i % 3:
                c["view"] = a_view(ck.rng)
    obs = ck.harness("doc", cases)
    out = []
    for c, o in zip(cases, obs):
        if "dead" in o:
            o = {"panic": "dead", "msg": o["dead"]}
        o = dict(EMPTY, **o)
        o["mod"] = c["mod"]
        s = o.pop("svg", None)
        if picture and s is not None:
            o["pic"] = svg.read(s)
        if overlay:
            v = o.pop("overlay", None)
            o["over"] = svg.read(v) if v is not None else EMPTY["pic"]
            o["graph"] = o.get("graph") or {"nodes": [], "edges": [], "boxes": 0}
            o["ids"] = [cps(x) for x in o.get("ids", [])]
            o.pop("jids", None)
        if channels:
            o.setdefault("channels", {"nodes": [], "sides": [], "links": [], "ends": []})
        if not picture:
            o.pop("pic")
        out.append(o)
    return cases, out


def describe(c):
    m = c["mod"]
    q = lambda x: text(x)
    es = []
    for e in m["entries"]:
        if e["k"] == "def":
            es.append(q(e["name"]) + " { " + "; ".join(f"{q(f['n'])} {f['t']} {f['k']}".strip() for f in e["fields"]) + " }")
        else:
            es.append(".".join(map(q, e["a"])) + " o--o " + ".".join(map(q, e["b"])))
    return "erd " + "".join(q(x) + " " for x in m["name"]) + "{ " + "\n".join(es) + " }"


def finish(ck, cases, obs, invs, goal, chunk=1500, **kw):
    ck.detail["modules"] = len(cases)
    ck.detail["boxes"] = sum(len(o["content"]["boxes"]) for o in obs)
    ck.detail["edges"] = sum(len(o["content"]["edges"]) for o in obs)
    for c in cases[:: max(1, len(cases) // 3)][:4]:
        ck.samples.append({"module": describe(c)[:600]})
    ck.validate("TraceDoc", invs, cases, obs, constants={"Goal": f'"{goal}"'}, deadlock=False,
                describe=describe, chunk=chunk, **kw)


def model_modules(ck, n):
    """The modules of the exhaustive model of resolving."""
    ck.model("MCModule", ["RoundTrip", "Resolved", "Moved", "InOneGo", "Emit"],
             constants={"MaxEntries": ck.pick(2, 3), "EmitEvery": 1 if not ck.thorough else 7}, deadlock=False, emit="GEN")
    mods = ck.emitted
    return mods if len(mods) <= n else ck.rng.sample(mods, n)


def model_layout(ck):
    ck.model("MCLayout", ["Grid", "ViewOk", "Tiles", "Ports", "NoEarlyPorts", "Emit"],
             constants={"MaxBoxes": ck.pick(7, 8), "MaxRows": ck.pick(2, 3), "EmitAll": "TRUE"}, deadlock=False,
             emit="GEN", props=["Stays", "Finishes"])
    return ck.emitted


def refs(h):
    return [[i + 1] for i in range(len(h))] + [[i + 1, j + 1] for i in range(len(h)) for j in range(h[i])]


def model_route(ck):
    """All walks in small documents; returns the documents with the ends and the shortest length."""
    got = {}
    for mb, mr in ck.pick([(2, 3), (4, 1)], [(2, 5), (3, 3), (4, 2), (5, 1)]):
        ck.model("MCRoute", ["Reachable", "Arrived", "Emit"],
                 constants={"MaxBoxes": mb, "MaxRows": mr, "EmitAll": "TRUE"}, deadlock=False, emit="GEN")
        want = set()
        for n in range(1, mb + 1):
            for h in itertools.product(range(1, mr + 1), repeat=n):
                want |= {(h, tuple(a), tuple(b)) for a in refs(h) for b in refs(h)}
        for e in ck.emitted:
            k = (tuple(e["h"]), tuple(e["a"]), tuple(e["b"]))
            got[k] = e["best"]
            want.discard(k)
        if want:
            raise ToolError(f"in the specification no walk is as short as the shortest length for {sorted(want)[:3]}")
    return [k for k in sorted(got) if all(len(r) == 1 or r[1] > 1 for r in k[1:])]


def shapes(ck, n, **kw):
    return [D.random_module(ck.rng, **kw) for _ in range(n)]


def layouts(ck, with_edges=False):
    hs = model_layout(ck)
    mods = []
    for h in hs if ck.thorough else ck.rng.sample(hs, min(len(hs), 300)):
        mods.append(D.shape(ck.rng, h, []))
    for h in ([], [1], [30], [1, 30, 2], [12, 1, 1, 1, 9, 2, 3], [3] * 25, list(range(1, 14)), [2, 9, 4, 1, 1, 40, 3, 3, 3, 5]):
        mods.append(D.shape(ck.rng, h, []))
    for _ in range(ck.pick(700, 8000)):
        h, e = D.random_shape(ck.rng, maxbox=11, maxrow=11)
        mods.append(D.shape(ck.rng, h, e if ck.rng.random() < 0.4 else []))
    mods += [D.wild_module(ck.rng, odd=0.1) for _ in range(ck.pick(200, 3000))]
    for _ in range(ck.pick(200, 3000)):
        mods.append(D.shape(ck.rng, D.tall(ck.rng), []))
    for n in (31, 32, 33, 34, 64, 65, 66, 100, 129, ck.pick(130, 300)):
        mods.append(D.shape(ck.rng, [ck.rng.choice([1, 1, 2]) for _ in range(n)], []))
        mods.append(D.shape(ck.rng, [ck.rng.choice([1, 2]), n, 1, n, n][:ck.rng.randint(2, 5)], []))
    return mods + D.hinted(ck.rng, edges=0)


def c07(ck):
    mods = model_modules(ck, ck.pick(4000, 60000))
    mods += [D.wild_module(ck.rng) for _ in range(ck.pick(4000, 50000))]
    mods += shapes(ck, ck.pick(500, 5000))
    mods = unreachable_rows(ck, mods)
    mods += D.scale_modules(ck.rng, ck.thorough) + [D.shape(ck.rng, D.tall(ck.rng), []) for _ in range(ck.pick(20, 300))]
    cases, obs = observe(ck, mods, picture=False)
    for o in obs:
        o.pop("routes"), o.pop("geo")
    finish(ck, cases, obs, ["C07"], "doc", chunk=10000)


def unreachable_rows(ck, mods):
    """Relations that name a field of one of several entities of that name, and the like."""
    rng = ck.rng
    for _ in range(ck.pick(1500, 20000)):
        if rng.random() < 0.5:
            ns = rng.sample(["a", "b", "c", "a.b", "A", "", "a b"], rng.randint(1, 3))
            fs = rng.sample(["f", "g", "a", "f.g", "F", ""], rng.randint(1, 3))
        else:
            # names that read like a path, a path that reads like a name
            sep = rng.choice([".", ".", " ", "`", "", "::", "/", "\0", "\u001f", "\n"])
            x, y = rng.choice("abA"), rng.choice("abB")
            ns = [x, y, x + sep + y]
            fs = [y, x, rng.choice([y + sep + x, x + sep + y, sep + y, y + " "])]
        es = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.5:
                es.append({"k": "def", "name": cps(rng.choice(ns)),
                           "fields": [{"n": cps(rng.choice(fs)), "t": rng.choice(G.TYPES), "k": rng.choice(["", "PK", "FK"])}
                                      for _ in range(rng.choice([0, 1, 2, 3]))]})
            else:
                p = lambda: [cps(rng.choice(ns))] + ([cps(rng.choice(fs))] if rng.random() < 0.6 else [])
                es.append({"k": "rel", "a": p(), "b": p()})
        mods.append({"name": [], "entries": es})
    return mods


def placed(ck, inv):
    mods = layouts(ck)
    cases, obs = observe(ck, mods, picture=False)
    for o in obs:
        o.pop("routes")
    finish(ck, cases, obs, [inv], "places", chunk=6000)
    # put together by hand
    cases = [D.grids(ck.rng) for _ in range(ck.pick(3000, 40000))]
    obs = [dict({"panic": "dead", "geo": [], "vb": []} if "dead" in o else o, heights=[b["rows"] for r in c["rounds"] for b in r["boxes"]])
           for c, o in zip(cases, ck.harness("roads", cases))]
    for o in obs:
        o.pop("routes", None), o.pop("channels", None)
    ck.detail["documents_made_by_hand"] = len(cases)
    ck.validate("TraceGrid", [inv], cases, obs, name="grids", deadlock=False)


def c08(ck):
    placed(ck, "C08")


def c09(ck):
    placed(ck, "C09")


def c10(ck):
    placed(ck, "C10")
    # placed by hand, and moved
    cases = [D.placed(ck.rng) for _ in range(ck.pick(3000, 40000))]
    obs = ck.harness("ports", cases)
    empty = {"panic": "dead", "geo": [], "again": []}
    obs = [dict(empty if "dead" in o else o, n=len(c["boxes"])) for c, o in zip(cases, obs)]
    for c, o in zip(cases, obs):
        if not c["times"]:
            o["geo"] = o["again"]
    ck.detail["documents_placed_by_hand"] = len(cases)
    ck.validate("TracePorts", ["C10"], cases, obs, name="ports", deadlock=False)


def edged(ck, n, big=(), hinted=(130, 300, 1100), **kw):
    """All pairs of ends in small documents, and random larger documents with several edges."""
    mods = []
    small = model_route(ck)
    if len(small) > ck.pick(500, 20000):
        small = ck.rng.sample(small, ck.pick(500, 20000))
    for h, a, b in small:
        mods.append(D.shape(ck.rng, list(h), [(list(a), list(b))]))
    for _ in range(n):
        m = D.random_module(ck.rng, **kw)
        mods.append(m)
    # every pair of boxes in a larger grid, with rows of different heights
    for _ in range(ck.pick(40, 400)):
        k = ck.rng.randint(5, 9)
        hs = [ck.rng.choice([1, 1, 2, 3, 5, 8, 14]) for _ in range(k)]
        rs = [[i + 1] for i in range(k)] + [[i + 1, j] for i in range(k) for j in range(2, hs[i] + 1)]
        mods.append(D.shape(ck.rng, hs, [(ck.rng.choice(rs), ck.rng.choice(rs)) for _ in range(4)]))
    # tall boxes in the way
    for _ in range(n // 6):
        mods.append(D.shape(ck.rng, *D.fence(ck.rng)))
    # large documents
    for k, maxbox, edges, tallest in big:
        mods += [D.large(ck.rng, maxbox, edges=edges, tallest=tallest) for _ in range(k)]
    return mods + D.hinted(ck.rng, *hinted)


def by_hand(ck, inv, n, **kw):
    """Routes in documents put together by hand."""
    cases = [D.roads(ck.rng, **kw) for _ in range(n)]
    obs = ck.harness("roads", cases)
    none = {"panic": "dead", "geo": [], "vb": [], "routes": [], "channels": {"nodes": [], "sides": [], "links": [], "ends": []}}
    obs = [dict(none if "dead" in o else o, shape=c["shape"], ends=c["ends"], grid=c["grid"]) for c, o in zip(cases, obs)]
    if inv != "C26":
        for o in obs:
            o.pop("channels")
    ck.detail["documents_routed_by_hand"] = len(cases)
    ck.validate("TraceRoute", [inv], cases, obs, name="roads", constants={"Goal": '"short"' if inv == "C13" else '"legal"'}, deadlock=False)


def LARGE(ck):
    return [(ck.pick(60, 600), 30, 20, 60), (ck.pick(6, 40), 60, 60, 130)]


def c11(ck):
    cases, obs = observe(ck, edged(ck, ck.pick(2500, 30000), big=LARGE(ck), maxbox=9, maxrow=8), picture=False)
    finish(ck, cases, obs, ["C11"], "places", chunk=6000)
    by_hand(ck, "C11", ck.pick(3000, 40000), maxbox=16)


def c12(ck):
    cases, obs = observe(ck, edged(ck, ck.pick(2500, 30000), big=LARGE(ck), maxbox=9, maxrow=8), picture=False)
    finish(ck, cases, obs, ["C12"], "places", chunk=6000)
    by_hand(ck, "C12", ck.pick(3000, 40000), maxbox=16)


def c13(ck):
    cases, obs = observe(ck, edged(ck, ck.pick(500, 8000), big=[(ck.pick(12, 200), 15, 4, 60)], hinted=(30, 60, 70), maxbox=9, maxrow=8), picture=False)
    finish(ck, cases, obs, ["C13"], "routes", chunk=6000)
    by_hand(ck, "C13", ck.pick(400, 6000), maxbox=6, maxedge=2)


def c26(ck):
    mods = edged(ck, ck.pick(800, 10000), big=[(ck.pick(12, 200), 20, 8, 60)], hinted=(40, 80, 130), maxbox=9, maxrow=8)
    cases, obs = observe(ck, mods, picture=False, channels=True)
    ck.detail["junctions"] = sum(len(o["channels"]["nodes"]) for o in obs)
    ck.detail["links"] = sum(len(o["channels"]["links"]) for o in obs)
    finish(ck, cases, obs, ["C26"], "places", chunk=1500)
    by_hand(ck, "C26", ck.pick(600, 8000), maxbox=9)


def pictures(ck, n):
    mods = [D.random_module(ck.rng, maxbox=7, maxrow=6) for _ in range(n)]
    mods += [D.wild_module(ck.rng, odd=0) for _ in range(n // 2)]
    for h in ([], [1], [1, 1], [1, 1, 1, 1]):
        mods.append(D.shape(ck.rng, h, []))
    mods += [D.large(ck.rng, 40, edges=10) for _ in range(n // 40)]
    mods += D.hinted(ck.rng, 300, 300, 600)
    # many boxes, many rows
    for k in (33, 65, 101, 130, 160, 257, 300):
        mods.append(D.shape(ck.rng, [ck.rng.choice([1, 2, 2, 3]) for _ in range(k)], [([1], [k])]))
        mods.append(D.shape(ck.rng, [2, k, 1], [([1], [2, k])]))
    def long(k, n):
        if k % 2:
            return cps("".join(ck.rng.choice("abcXYZ_0") for _ in range(k)))
        y = list("ab" * (k // 2))   # names that differ in one place
        y[ck.rng.choice([0, 1, k // 2, k - 1])] = "cdefghijklmnopqrstuvwxyz"[n]
        return cps("".join(y))
    for k in [12, 16, 17, 20, 21, 24, 25, 26, 30, 31, 32, 33, 40, 41, 48, 49, 60, 61, 64, 65, 100, 128, 129, 256, 257, 1000] + D.H.near(3000, 3):
        m = D.shape(ck.rng, [2, 3, 1, 2], [([1, 2], [4])])
        mods.append(D.rename(m, lambda x, k=k, s={}: s.setdefault(x, long(k, len(s)))))
    return mods


def c14(ck):
    model_layout(ck)
    cases, obs = observe(ck, pictures(ck, ck.pick(500, 6000)), views=True)
    finish(ck, cases, obs, ["C14"], "picture")


def c15(ck):
    mods = edged(ck, ck.pick(500, 6000), big=[(ck.pick(20, 200), 30, 40, 60)], maxbox=8, maxrow=7)
    # far from the origin
    for k in (128, 254, 286, 300, ck.pick(380, 1200)):
        for h in ([2, k, 1, 3, 2, 2], [k, 1, 2], [1, 2, 3, k, 1, 1, 2, 3, 2]):
            r = D.refs(h)
            low = [x for x in r if len(x) > 1 and x[1] > k - 30] or r
            mods.append(D.shape(ck.rng, h, [(ck.rng.choice(low), ck.rng.choice(r)), ([len(h)], [1]), ([len(h)], ck.rng.choice(low))]))
    cases, obs = observe(ck, mods)
    finish(ck, cases, obs, ["C15"], "picture")
    drawn(ck, hand_made_lines(ck), ["C15"])


ODD = ["<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#60;", "<b>", "</text>", "<!--", "-->", "]]>", "<![CDATA[", "<?xml?>", "&nope;",
       "%", "#", "url(#x)", "\\", "`", "\x00", "\x01", "\x08", "\x0b", "\x1f", "\x7f", "\x80", "\x85", "\u00a0", "\t", "\n", "\r", "\r\n", " ", "  ",
       "é", "日本", "\u2028", "\u202e", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\U0001F600", "\U0010ffff", "{}", "{0}", "%s", "$1", "", "erd", "]]", "--"]


def c16(ck):
    rng = ck.rng

    def odd_name():
        if rng.random() < 0.3:
            return rng.choice(ODD + D.H.STRINGS)
        return "".join(rng.choice(ODD + D.H.STRINGS) if rng.random() < 0.6 else rng.choice("abcXYZ019_") for _ in range(rng.randint(1, 5)))

    mods, plain = [], []
    for i in range(ck.pick(900, 12000)):
        m = D.random_module(rng, maxbox=4, maxrow=4, maxedge=2) if rng.random() < 0.7 else D.wild_module(rng, odd=0)
        names, used = {}, set()

        def f(x):
            while x not in names:
                y = odd_name() if len(used) or i >= len(ODD) else ODD[i]
                if rng.random() < 0.02:
                    y = chr(rng.choice([rng.randint(0, 0xd7ff), rng.randint(0xe000, 0x10ffff)]))
                if y not in used:
                    used.add(y)
                    names[x] = cps(y)
            return names[x]

        plain.append(m)
        mods.append(D.rename(m, f))
    # long names, with something to be escaped near the front, in the middle or at the end
    for k in [8, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 41, 48, 60, 63, 64, 65, 80, 100, 127, 128, 129, 255, 256, 257, 1000, 4097] + D.H.near(5000, 4):
        for _ in range(ck.pick(2, 12)):
            m = D.shape(rng, [2, 1, 2], [([1, 2], [3])])
            names = {}
            stem = [rng.choice("abcXYZ019_ .") for _ in range(k)] if rng.random() < 0.5 else []   # names differ in few places

            def g(x):
                if x not in names:
                    y = list(stem) or [rng.choice("abcXYZ019_ .") for _ in range(k)]
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        i = rng.choice([0, 1, k // 2, k - 2, k - 1, rng.randrange(k)])
                        y[i] = rng.choice(["<", "&", "\"", "'", ">", "日", "é", "\U0001F600", "\x01", "a", " "])
                    if stem:
                        y[rng.choice([0, k // 2, k - 1])] = chr(0x3041 + len(names))
                    names[x] = cps("".join(y))
                return names[x]

            plain.append(m)
            mods.append(D.rename(m, g))
    cases, obs = observe(ck, mods, dress=False)
    _, peer = observe(ck, plain, dress=False)  # the same number of times
    for o, p in zip(obs, peer):
        o["peer"] = p["pic"]
    finish(ck, cases, obs, ["C16"], "picture")


def drawn(ck, cases, invs):
    obs = ck.harness("draw", cases)
    out = []
    for c, o in zip(cases, obs):
        if "dead" in o:
            o = {"panic": o["dead"], "res": "", "who": [], "len": 0, "svg": ""}
        s = o.pop("svg")
        out.append(dict(o, **c, pic=svg.read(s) if s else EMPTY["pic"]))
    ck.detail["documents_put_together_by_hand"] = len(cases)
    ck.validate("TraceDraw", invs, cases, out, name="draw", deadlock=False, chunk=1500)


def hand_made_lines(ck):
    rng = ck.rng
    ws = D.all_turns()
    ws += [D.walk(rng, D.H.choice(rng, [1, 2, 3, 4, 5, 6, 9, 14, 30], hi=520)) for _ in range(ck.pick(1500, 20000))]
    ws += [D.walk(rng, rng.choice([33, 64, 65, 100, 257]), short=0.8) for _ in range(ck.pick(8, 100))]
    ws += [D.walk(rng, rng.choice([3, 4, 6]), short=1, turns=1) for _ in range(ck.pick(600, 6000))]
    return D.lines(ws)


def model_draw(ck):
    """Every small document in every style, complete or with something missing."""
    docs = []
    for mode in ("row", "rows", "several", "lacking"):
        ck.model("MCDraw", ["Ordered", "Clipped", "Honest", "Complete", "Refused", "Emit"],
                 constants={"Mode": f'"{mode}"', "EmitAll": "TRUE"}, deadlock=False, emit="GEN", props=["Ends"])
        docs += ck.emitted
    ck.detail["documents_from_the_model"] = len(docs)
    return docs


def c28(ck):
    rng = ck.rng
    cases = model_draw(ck)
    cases += [D.styled(rng, missing=0.05 if i % 4 == 3 else 0) for i in range(ck.pick(1200, 15000))]
    cases += [D.styled(rng, maxbox=30, maxrow=5, edges=10) for _ in range(ck.pick(10, 150))]
    cases += [D.styled(rng, maxbox=3, maxrow=40, edges=2) for _ in range(ck.pick(10, 150))]
    cases += hand_made_lines(ck)
    ck.samples += [{"document": json.dumps(c)[:500]} for c in cases[:4]]
    drawn(ck, cases, ["C28"])
