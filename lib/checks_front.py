"""C01 C02 C03 C04 C06 C20 and the front part of C05: texts into modules."""
import glob, os
import gen_doc as D
import gen_front as G
from core import REPO, cps, text

DEAD = {"panic": "dead", "some": False, "ast": {"name": [], "entries": []}, "lex": [], "syn": [], "print": [],
        "again": False}


def observe(ck, cases):
    obs = ck.harness("front", cases)
    for i, o in enumerate(obs):
        if "dead" in o:
            obs[i] = dict(DEAD, panic=o["dead"], src=cases[i].get("src", []))
        if "mod" in cases[i]:
            obs[i]["mod"] = cases[i]["mod"]
        obs[i].pop("print", None)
    return obs


def describe(c):
    return text(c["src"]) if "src" in c else c.get("mod")


def corpus():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "example", "*.seiren"))):
        with open(p, encoding="utf-8") as f:
            out.append(f.read())
    out += [
        "", "\n", ";", " ", "\t\t", "// x", " // x", "// x\n", "\n// x", "//", "/", "erd{}", "erd {}", "erd {} // x",
        "erd {}\r\n", "erd {}\r", "erd {} erd {}", "erd {} }", "erd a b {}", "erd\n;a\n{\r\n}", "erd `erd` {}", "erd `` {}",
        "erd { a {} }", "erd { a { } b { } }", "erd { a { id } }", "erd { a { id int PK FK } }", "erd { a { id int int } }",
        "erd { a { id int; ; id int } ; }", "erd { a o--o b }", "erd { a.b o--o c.d }", "erd { a.b.c o--o d }", "erd { a. o--o b }",
        "erd { a o--o b o--o c }", "erd { a o-- b }", "erd { a o--ob }", "erd{ao--ob}", "erd { o o--o o }", "erd { oo--oo }",
        "erd { a\no--o\nb }", "erd { a;o--o;b }", "erd { a.\nb o--o c }", "erd { a\n.b o--o c }", "erd { int {} }",
        "erd { `int` { `text` text } }", "erd { a { id INT } }", "erd { a { id int pk } }", "ERD {}", "erd { a { id\nint } }",
        "erd { a { id int\nPK } }", "erd { a { id int // x\n } }", "erd { a { id int } // x\n// y\n\n// z\n b {} }",
        "erd `\\u0041` {}", "erd `\\ud800` {}", "erd `\\u004` {}", "erd `a\nb` {}", "erd `a//b` {}", "erd `a", "erd `a\\`", "erd {#}",
        "erd {}#", "#erd {}", "erd { a - b }", "erd { 1a {} }", "erd {é}", "erd { a { id int é } }", "erd { a /* x */ {} }",
        "erd {/}", "erd { / / }", "erd {\u00a0}", "\ufefferd {}", "erd { \\ }", "erd\x0b{}", "erd { a {} \r b {} }", "erd{`a`{`b`int`c`text}}",
        "erd{}//" + "x" * 300, "erd {" + ";" * 300 + "}", "erd { a {" + " ".join("f%d int;" % i for i in range(60)) + "} }",
    ]
    return out


def model_grammar(ck, maxlen):
    """Checks the automaton and returns the token sequences it explored."""
    ck.model("MCGrammar", ["Agrees", "Completes", "DeadStays", "RoundTrip", "Emit"],
             constants={"MaxLen": maxlen, "EmitFrom": 1}, deadlock=False, emit="GEN")
    return ck.emitted


def model_text(ck, chunks, emit=True):
    ck.model("MCText", ["Deterministic", "InOrder", "Covered", "Placed", "Reported", "CleanLex", "Emit"],
             constants={"MaxChunks": chunks, "EmitAll": "TRUE" if emit else "FALSE"}, spec="Fair", emit="GEN",
             props=["Terminates"])
    return ck.emitted


def sequences(ck, seqs, n):
    if len(seqs) > n:
        seqs = ck.rng.sample(seqs, n)
    return [G.join(ck.rng, G.of_kinds(ck.rng, s), comments=0.05) for s in seqs]


def finish(ck, cases, obs, invs, **kw):
    n_ok = sum(1 for o in obs if o["some"] and not o["lex"] and not o["syn"])
    ck.detail["texts"] = len(cases)
    ck.detail["texts_accepted_by_the_code"] = n_ok
    ck.detail["distinct_texts"] = len({tuple(o["src"]) for o in obs})
    for o in obs[:: max(1, len(obs) // 3)][:4]:
        ck.samples.append({"text": text(o["src"])[:400], "accepted": o["some"], "diagnostics": len(o["lex"]) + len(o["syn"])})
    ck.validate("TraceFront", invs, cases, obs, describe=describe, chunk=25000, view="Where", **kw)


def c01(ck):
    seqs = model_grammar(ck, ck.pick(6, 8))
    texts = corpus() + G.characters() + G.scales(ck.rng, ck.thorough) + sequences(ck, seqs, ck.pick(4000, 60000))
    chunks = model_text(ck, ck.pick(3, 4))
    texts += [text(c) for c in (chunks if len(chunks) < 80000 else ck.rng.sample(chunks, 80000))]
    texts += [G.random_text(ck.rng, [4, 4, 1, 3, 1]) for _ in range(ck.pick(4000, 60000))]
    texts += G.nearly(ck.rng, ck.pick(16000, 100000))
    cases = [G.case(t) for t in texts]
    finish(ck, cases, observe(ck, cases), ["C01"])


def c02(ck):
    seqs = [s for s in model_grammar(ck, ck.pick(6, 8)) if s[-1] in ("}", "nl", ";")]
    texts = corpus() + G.characters() + G.scales(ck.rng, ck.thorough) + sequences(ck, seqs, ck.pick(1500, 30000))
    for _ in range(ck.pick(6000, 80000)):
        m = G.gen_module(ck.rng, big=ck.rng.random() < 0.03, odd=ck.rng.choice([0, 0.25, 0.7]))
        texts.append(G.join(ck.rng, G.lexemes(ck.rng, m, pad=ck.rng.choice([0.02, 0.2, 0.5]), quoted=ck.rng.choice([0.1, 0.6]))))
    cases = [G.case(t) for t in texts]
    finish(ck, cases, observe(ck, cases), ["C02"])


def respell(rng, lex, mod):
    """Another text of the same meaning: other separators where there are some, other spelling of names,
    other trivia."""
    out = []
    i = 0
    while i < len(lex):
        k, s = lex[i]
        if k in ("nl", ";"):
            while i < len(lex) and lex[i][0] in ("nl", ";"):
                i += 1
            out += [G.sep(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
            continue
        out.append((k, s))
        i += 1
    return out


def c03(ck):
    rng = ck.rng
    pairs = []
    seqs = model_grammar(ck, ck.pick(5, 7))
    pool = rng.sample(seqs, min(len(seqs), ck.pick(1500, 30000)))
    for i in range(ck.pick(5000, 60000)):
        # names are kept abstract ("\0n") until they are spelled
        if i < len(pool):
            names = {}
            lex = [(k, rng.choice(["a", "b", "erd", "x y", "int", "é", "o", "a`b", "`", "\\", "q\nr", "P K"])) if k == "ident"
                   else l for k, l in zip(pool[i], G.of_kinds(rng, pool[i]))]
        else:
            m = G.gen_module(rng, odd=rng.choice([0, 0.3]))
            lex = G.lexemes(rng, m, pad=0.3)
            lex = [(k, abstract(s)) if k == "ident" else (k, s) for k, s in lex]
            if rng.random() < 0.3:
                lex = [(k, s.strip("`") or "a") if k == "ident" and s.startswith("`") else (k, s) for k, s in G.mutate_lex(rng, lex)]
        out = []
        for _ in range(2):
            l = respell(rng, lex, None)
            l = [(k, G.spell(rng, s, rng.choice([0.1, 0.7]))) if k == "ident" else (k, s) for k, s in l]
            out.append(G.join(rng, l, comments=rng.choice([0, 0.3]), tight=rng.choice([0.1, 0.9])))
        pairs.append(out)
    # long separators, blanks and comments
    for n in [2, 17, 33, 65, 129, 257, 1025, ck.pick(2049, 65537)] + G.H.near(70000, 2):
        for a, b in (("{sp}", " "), ("{nl}", "\n"), ("{nl}", "\r\n"), ("{nl}", ";"), ("{nl}", "// x\n"), ("{nl}", " ;\t"), ("{co}", "x")):
            t = "{nl}erd {sp}n{nl}{sp}[{sp}{nl}a {nl}[{nl}{sp}id {sp}int {sp}PK\n{nl}{nl}f {sp}text //{co}\n]{nl}\n{sp}a{sp}.{sp}id {nl}o--o{nl}{sp}n\n{nl}]{nl}{sp}//{co}"
            one = lambda k, v: t.replace(k, v).replace("{sp}", "").replace("{nl}", "").replace("{co}", "").replace("[", "{").replace("]", "}")
            if a == "{nl}" and n > ck.pick(140, 600):
                continue
            pairs.append([one(a, b), one(a, b * n)])
            pairs.append([one(a, b * n), one(a, b * (n - 1))])
    cases = [G.case(a) for a, _ in pairs] + [G.case(b) for _, b in pairs]
    obs = observe(ck, cases)
    n = len(pairs)
    joined = []
    for i in range(n):
        o = dict(obs[i])
        o["peer"] = {k: obs[n + i][k] for k in ("src", "panic", "some", "ast", "lex", "syn")}
        joined.append(o)
    ck.detail["pairs"] = n
    finish(ck, cases[:n], joined, ["SameMeaning", "C03"])


def abstract(s):
    if not s.startswith("`"):
        return s
    # undo the spelling (only ever applied to well-formed names)
    out, i = [], 1
    esc = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
    while i < len(s) - 1:
        if s[i] == "\\":
            if s[i + 1] == "u":
                out.append(chr(int(s[i + 2:i + 6], 16)))
                i += 6
            else:
                out.append(esc.get(s[i + 1], s[i + 1]))
                i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def c04(ck):
    seqs = model_grammar(ck, ck.pick(6, 8))
    texts = corpus() + G.characters() + G.scales(ck.rng, ck.thorough) + sequences(ck, seqs, ck.pick(5000, 60000))
    texts += [text(c) for c in model_text(ck, ck.pick(3, 4))][: ck.pick(4000, 60000)]
    texts += [G.random_text(ck.rng, [0, 6, 3, 2, 1]) for _ in range(ck.pick(5000, 60000))]
    texts += G.nearly(ck.rng, ck.pick(4000, 60000))
    cases = [G.case(t) for t in texts]
    finish(ck, cases, observe(ck, cases), ["C04"])


def c06(ck):
    texts = [text(c) for c in model_text(ck, ck.pick(3, 4))]
    if len(texts) > 70000:
        texts = ck.rng.sample(texts, 70000)
    texts += corpus() + G.characters() + G.scales(ck.rng, ck.thorough)
    texts += [G.random_text(ck.rng, [0, 0, 6, 2, 1]) for _ in range(ck.pick(6000, 80000))]
    texts += G.nearly(ck.rng, ck.pick(4000, 60000))
    cases = [G.case(t) for t in texts]
    finish(ck, cases, observe(ck, cases), ["C06"])


def c20(ck):
    rng = ck.rng
    model_grammar(ck, ck.pick(6, 8))
    ck.model("MCModule", ["RoundTrip", "Emit"], constants={"MaxEntries": 2, "EmitEvery": 1}, deadlock=False, emit="GEN")
    mods = [m for m in ck.emitted if all_plain(m)]
    if len(mods) > 4000 and not ck.thorough:
        mods = rng.sample(mods, 4000)
    ck.detail["modules_from_the_model"] = len(mods)
    for i in range(ck.pick(4000, 60000)):
        mods.append(plain_module(rng, big=rng.random() < 0.03))
    mods += D.scale_modules(rng, ck.thorough)
    cases = [{"mod": m} for m in mods]
    finish(ck, cases, observe(ck, cases), ["C20"])


def plain_module(rng, big):
    m = G.gen_module(rng, big=big, odd=0)
    for e in m["entries"]:
        for key in ("a", "b"):
            if key in e:
                e[key] = [cps(x) for x in e[key]]
        if e["k"] == "def":
            e["name"] = cps(e["name"])
            for f in e["fields"]:
                f["n"] = cps(f["n"])
    m["name"] = [cps(x) for x in m["name"]]
    return m


def all_plain(m):
    import re
    names = list(m["name"])
    for e in m["entries"]:
        if e["k"] == "def":
            names += [e["name"]] + [f["n"] for f in e["fields"]]
        else:
            names += e["a"] + e["b"]
    return all(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", text(x)) and text(x) not in G.KEYWORDS for x in names)
