"""Texts for the front end.  Nothing here decides what is right: the specification reads the same
texts."""
from core import cps
import hints as H

KEYWORDS = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"]
TYPES = ["int", "uuid", "text", "timestamp"]
PLAIN = ["a", "b", "users", "id", "x1", "_", "_a9", "Users", "o", "oo", "O", "erd1", "interval", "textual",
         "PKs", "pk", "uuid_", "Int", "ERD", "timestamps", "time", "e", "er", "u0041", "zZ", "posts", "created_at",
         "A0_", "o1", "int_", "P", "F", "FKPK"]
ODD_CHARS = list(" \t\n\r\b\f/\\\"`{}.;-#<>&'o0a") + ["é", "日", "\U0001F600", "\u00a0", "\u2028", "\ufeff", "\x00", "\x0b", "\x7f", "\x85", "\ufffd", "\u202e"]


def quote(rng, name, style=None):
    """A backquoted spelling of a name; escapes are chosen at random where they may be."""
    out = ["`"]
    for ch in name:
        o = ord(ch)
        short = {"\\": "\\\\", "/": "\\/", '"': '\\"', "`": "\\`", "\b": "\\b", "\f": "\\f", "\n": "\\n",
                 "\r": "\\r", "\t": "\\t"}.get(ch)
        must = ch in "\\`"
        r = rng.random()
        if o < 0x10000 and not 0xD800 <= o < 0xE000 and (r < 0.12 or (must and r < 0.4)):
            h = "%04x" % o
            out.append("\\u" + "".join(c.upper() if rng.random() < 0.4 else c for c in h))
        elif short and (must or r < 0.5):
            out.append(short)
        else:
            out.append(ch)
    out.append("`")
    return "".join(out)


def plain_name(rng):
    if rng.random() < 0.6:
        return rng.choice(PLAIN)
    n = H.choice(rng, [1, 1, 2, 3, 5, 12, 40], hi=H.name_limit(rng), p=0.1)
    s = rng.choice("abcxyzABCXYZ_o") + "".join(rng.choice("abcxyzABCXYZ_o0123456789") for _ in range(n - 1))
    return s + "_" if s in KEYWORDS else s


def odd_name(rng):
    if H.STRINGS and rng.random() < 0.2:
        return rng.choice(["", "", "a"]) + rng.choice(H.STRINGS) + rng.choice(["", "", "1"])
    r = rng.random()
    if r < 0.25:
        return rng.choice(KEYWORDS)
    if r < 0.3:
        return ""
    if r < 0.4:
        return rng.choice(["a b", " a", "a ", "o--o", "// no comment", "a//b", "{", "}", ";", ".", "a.b", "1", "9a",
                           "erd {}", "\\", "`", "``", "\n", "\r\n", "é", "日本", "\\u0041", "\\n", "a\\", "\U0001F600"])
    return "".join(rng.choice(ODD_CHARS) for _ in range(rng.randint(1, 8)))


def name(rng, odd=0.25):
    return odd_name(rng) if rng.random() < odd else plain_name(rng)


def spell(rng, nm, odd_quote=0.15):
    """plainly if possible (mostly), or backquoted"""
    import re
    ok = re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", nm) and nm not in KEYWORDS
    if ok and rng.random() > odd_quote:
        return nm
    return quote(rng, nm)


# ------------------------------------------------------------------ modules
def gen_module(rng, big=False, odd=0.25):
    pool = [name(rng, odd) for _ in range(rng.randint(1, 6))]
    n = H.choice(rng, [0, 1, 1, 2, 2, 3, 4, 6], hi=70, p=0.04) if not big else rng.randint(8, 25)
    entries = []
    for _ in range(n):
        if rng.random() < 0.6:
            fs = []
            for _ in range(H.choice(rng, [0, 1, 1, 2, 3, 5], hi=70, p=0.04)):
                fs.append({"n": rng.choice(pool) if rng.random() < 0.4 else name(rng, odd),
                           "t": rng.choice(TYPES), "k": rng.choice(["", "", "PK", "FK"])})
            entries.append({"k": "def", "name": rng.choice(pool), "fields": fs})
        else:
            p = lambda: [rng.choice(pool) if rng.random() < 0.8 else name(rng, odd)
                         for _ in range(rng.choice([1, 2, 2]))]
            entries.append({"k": "rel", "a": p(), "b": p()})
    return {"name": [rng.choice(pool)] if rng.random() < 0.6 else [], "entries": entries}


# A text is made of lexemes; a lexeme is (kind, spelling).
def sep(rng):
    return ("nl", rng.choice(["\n", "\n", "\r\n"])) if rng.random() < 0.75 else (";", ";")


def pads(rng, p=0.3, least=0):
    out = []
    while len(out) < least or rng.random() < p:
        out.append(sep(rng))
    return out


def lexemes(rng, mod, pad=0.25, quoted=0.15):
    P = lambda least=0: pads(rng, pad, least)
    I = lambda n: ("ident", spell(rng, n, quoted))
    out = P() + [("erd", "erd")] + P()
    if mod["name"]:
        out += [I(mod["name"][0])] + P()
    out += [("{", "{")] + P()
    for i, e in enumerate(mod["entries"]):
        if i:
            out += P(1)
        if e["k"] == "def":
            out += [I(e["name"])] + P() + [("{", "{")] + P()
            for j, f in enumerate(e["fields"]):
                if j:
                    out += P(1)
                out += [I(f["n"]), (f["t"], f["t"])]
                if f["k"]:
                    out += [(f["k"], f["k"])]
            out += P() + [("}", "}")]
        else:
            for side in ("a", "b"):
                if side == "b":
                    out += P() + [("edge", "o--o")] + P()
                p = e[side]
                out += [I(p[0])]
                if len(p) > 1:
                    out += [(".", "."), I(p[1])]
    out += P() + [("}", "}")] + P()
    return out


def of_kinds(rng, kinds):
    sp = {"nl": "\n", "edge": "o--o", ";": ";", ".": ".", "{": "{", "}": "}"}
    out = []
    for k in kinds:
        if k == "ident":
            out.append((k, spell(rng, name(rng, 0.15))))
        elif k == "nl":
            out.append((k, rng.choice(["\n", "\r\n"])))
        else:
            out.append((k, sp.get(k, k)))
    return out


def blank(rng):
    return "".join(rng.choice(" \t") for _ in range(H.choice(rng, [0, 1, 1, 1, 2, 4], hi=300, p=0.02)))


COMMENTS = ["//", "// x", "//o--o", "// `", "// erd {", "///", "// \\u00zz }", "//é日 {", "// a; b", "//\t", "//\r", "// x // y"]


def join(rng, lex, comments=0.15, tight=0.5):
    """Puts the lexemes into one text, with trivia where it may or must be."""
    out = []
    if rng.random() < 0.3:
        out.append(blank(rng))
    wordy = lambda l: l[0] not in ("nl", ";", ".", "{", "}", "edge") and not l[1].startswith("`")
    for i, l in enumerate(lex):
        if i:
            a, b = lex[i - 1], l
            need = (wordy(a) and (wordy(b) or b[0] == "edge")) or (a[0] == "edge" and wordy(b) and False)
            if need:
                out.append(" " + blank(rng))
            elif rng.random() > tight:
                out.append(blank(rng))
        if l[0] == "nl" and rng.random() < comments:
            # a comment in front of a line end
            out.append(rng.choice(["", " ", "\t"]) + rng.choice(COMMENTS))
            if out[-1].endswith("\r") and l[1] == "\r\n":
                pass
        out.append(l[1])
    if rng.random() < 0.15:
        out.append(blank(rng))
        if rng.random() < 0.5:
            out.append(rng.choice(COMMENTS))
    return "".join(out)


# ---------------------------------------------------------------- mutations
ALL_LEX = [("erd", "erd"), ("ident", "z"), ("ident", "`q q`"), ("edge", "o--o"), ("{", "{"), ("}", "}"), (";", ";"),
           (".", "."), ("nl", "\n"), ("int", "int"), ("text", "text"), ("PK", "PK"), ("FK", "FK"), ("uuid", "uuid"),
           ("timestamp", "timestamp")]


def mutate_lex(rng, lex):
    lex = list(lex)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(lex) + 1)
        r = rng.random()
        if r < 0.3:
            lex.insert(i, rng.choice(ALL_LEX))
        elif lex and r < 0.55:
            del lex[min(i, len(lex) - 1)]
        elif lex and r < 0.75:
            lex[min(i, len(lex) - 1)] = rng.choice(ALL_LEX)
        elif len(lex) > 1 and r < 0.85:
            j = min(i, len(lex) - 2)
            lex[j], lex[j + 1] = lex[j + 1], lex[j]
        elif r < 0.93:
            lex = lex[:i]
        else:
            j = rng.randrange(len(lex) + 1)
            lex = lex[:i] + lex[min(i, j):max(i, j)] + lex[i:]
    return lex


STRAY = ["#", "/", "-", "--", "o-", "o--", "\r", "1", "9a", "é", "日本", ",", ":", "\\", "\\u0041", "\"x\"", "@@@", "/ /", "\u00a0",
         "\x00", "\ufeff", "<", "&", "\U0001F600", "0", "-o", "o--x", "*", "'", "\x0b", "\x85"]
BADQ = ["`", "`a", "`a\\q`", "`\\u12`", "`\\u12g4`", "`a\\", "`\\ud800`", "`\\uDFFF`", "`\\uD83D\\uDE00`", "`\\u", "`x\\U0041`", "`\\`", "`\\ud7ff`", "`\\ue000`"]


def add_stray(rng, text, n=None, badq=0.25):
    for _ in range(n or H.choice(rng, [1, 1, 2, 3], hi=70)):
        i = rng.randrange(len(text) + 1)
        s = rng.choice(BADQ) if rng.random() < badq else rng.choice(STRAY)
        text = text[:i] + s + text[i:]
    return text


def mutate_chars(rng, text):
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(text) + 1)
        r = rng.random()
        if r < 0.4:
            text = text[:i] + rng.choice(ODD_CHARS + ["o--o", "//", "\\u", "erd", "PK", "int"]) + text[i:]
        elif r < 0.75:
            text = text[:i] + text[i + 1:]
        else:
            text = text[:i]
    return text


def soup(rng):
    """no structure at all"""
    parts = ODD_CHARS + ["erd", "o--o", "//", "int", "PK", "`", "`a`", "\\u00", " ", "\n", "{", "}", "a", "o", "-"]
    return "".join(rng.choice(parts) for _ in range(rng.choice([0, 1, 2, 4, 8, 16, 30])))


def random_text(rng, w):
    """w: weights of good, token-mutated, stray, char-mutated, soup"""
    kind = rng.choices(["good", "tok", "stray", "char", "soup"], w)[0]
    if kind == "soup":
        return soup(rng)
    lex = lexemes(rng, gen_module(rng), pad=rng.choice([0.05, 0.25, 0.5]))
    if kind == "tok":
        lex = mutate_lex(rng, lex)
    t = join(rng, lex)
    if kind == "stray":
        t = add_stray(rng, t)
    elif kind == "char":
        t = mutate_chars(rng, t)
    return t


def characters():
    """Every character up to U+00FF, and some others, in every kind of place."""
    out = []
    for o in list(range(0x100)) + [0x130, 0x17f, 0x2028, 0x212a, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        x = chr(o)
        out += [f"erd {x} {{}}", f"erd a{x} {{}}", f"erd {x}a {{}}", f"erd `a{x}b` {{}}", f"erd `\\{x}` {{}}", f"erd {{}}{x}", f"{x}erd {{}}",
                f"erd {{ a {{ x int{x}PK }} }}", f"erd {{ a{x}.b o--o c }}", f"erd {{ a o-{x}-o c }}", f"erd {{ a //{x}\n }}", f"erd `\\u00{x}1` {{}}",
                f"erd {{ a {{}}{x}b {{}} }}"]
    for h in ["0000", "001f", "0020", "007F", "0080", "00e9", "07ff", "0800", "2028", "d7ff", "d800", "dbff", "dc00", "dfff", "e000", "FEFF", "fffd", "FFFE", "ffff",
              "", "1", "12", "123", "12345", "00410042", "123456789", "ffffffffff", "+041", " 041", "-041", "00 41", "g000", "000g", "0x41"]:
        out += [f"erd `\\u{h}` {{}}", f"erd `a\\u{h}b` {{ `\\U{h}` {{}} }}", f"\\u{h}"]
    return out


def case(t):
    return {"src": cps(t)}


def scales(rng, full=False):
    """A few texts that are large in one respect each (thresholds of all kinds)."""
    k = 4 if full else 1
    w = lambda n: "".join(rng.choice("abcxyzABC_019") for _ in range(n))
    ents = lambda n, f=lambda i: "id int": ";".join("e%d { %s }" % (i, f(i)) for i in range(n))
    out = []
    for n in [33, 70, 130, 260 * k] + H.near(2100)[-9:]:
        out += ["erd {" + ents(n) + "}",
                "erd { a {" + "\n".join("f%d %s%s" % (i, rng.choice(TYPES), rng.choice(["", " PK", " FK"])) for i in range(n)) + "} }",
                "erd { a {} b {}\n" + ";".join("a o--o b" if i % 3 else "a.f%d o--o b.g%d" % (i, i) for i in range(n)) + " }",
                "erd { a {} b {};" + "\n\n".join("a o--o b // %d" % i for i in range(n)) + "\n}",
                "erd {" + "\n" * n + "a {" + ";" * n + "id" + " " * n + "int" + "\t" * n + "PK" + "\r\n" * n + "}" + "\n" * n + "}" + "\n;" * n,
                "erd " + "#;" * n + "{}", "erd {" + "\n".join("é" for _ in range(n)) + "}", "erd {" + "é" * n + "}",
                "erd {}" + "\n// x" * n, "\n" * n + "erd {" + ";" * n + "a { b int } o--o }", "erd {" + "é日" * n + "} }",
                "erd `" + "\\u0041\\n" * min(n, 400) + "` {}", "erd `" + "\\ud800" * min(n, 400) + "` {}", "erd `" + "\\`" * min(n, 700) + " {}"]
    for n in [15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 79, 80, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4097 * k] + H.near(3000)[-14:]:
        p = "q" + w(n - 1)
        out += ["erd " + p + " {}", "erd { a { " + p + " int } }", "erd { " + p + " {} }", "erd { " + p + "." + p + " o--o " + p + " }", "erd { " + p + " o--o `" + p + "` }",
                "erd `" + w(n) + "` {}", "erd `" + "é" * n + "` {}", "erd {}//" + "x" * n, "// " + "/" * n + "\nerd { }", " " * n + "erd{" + " " * n + "}" + "\t" * n,
                "erd { " + "\x00" * n + " }", "erd {" + " " * n + "- }", "erd { a { id " + p + " } }", "erd { `" + w(n) + "\\q` }", "erd { " + p]
    for n in [65530 + rng.randint(1, 40)] + [k for k in H.near(70000) if k > 3000][-2:]:
        p = "q" + w(n)
        out += ["erd " + p + " {}", "erd `" + "é" * n + "` {}", "erd {}//" + "x" * n + "\n-", "//" + "x" * n + "\nerd { a }", " " * n + "erd { # }",
                "erd { a { b int }" + "#" * n + "}"]
    for h in H.STRINGS:
        q = "`" + h.replace("\\", "\\\\").replace("`", "\\`") + "`"
        out += ["erd " + x + " { " + x + " {}; " + x + "." + x + " o--o " + x + "; b { " + x + " int; " + x + " text PK } }" for x in (q, h)]
        out += [h, "erd {}" + h, "erd {" + h + "}", "erd { a { " + h + " } }", "erd {} // " + h, "//" + h + "\nerd {}", h + "\nerd {}", "erd " + h + " {}", "erd { a { id " + h + " } }",
                "erd { a " + h + " b }", "erd { a { id int " + h + " } }", "erd { a" + h + "b {} }", "erd { `" + h + "` {} }"]
    return out


def scale_modules(rng, full=False):
    """Modules with plain names that are large in one respect each."""
    k = 3 if full else 1
    w = lambda n: "q" + "".join(rng.choice("abcxyzABC_019") for _ in range(n - 1))
    E = lambda n, *fs: {"k": "def", "name": n, "fields": list(fs)}
    F = lambda n: {"n": n, "t": rng.choice(TYPES), "k": rng.choice(["", "PK", "FK"])}
    R = lambda a, b: {"k": "rel", "a": a, "b": b}
    out = []
    for n in [12, 20, 33, 65, 130, 257 * k] + H.near(1100)[-8:]:
        out.append([E("e%d" % i, *[F("id")] * (i % 2)) for i in range(n)])
        out.append([E("a", *[F("f%d" % i) for i in range(n)]), R(["a", "f%d" % (n - 1)], ["a", "f0"])])
        out.append([E("a", F("x")), E("b", F("y"))] + [R(["a", "x"], ["b", "y"]) if i % 2 else R(["b"], ["a"]) for i in range(n)])
        out.append([E("a", *[F("x")] * n)] + [E("a", F("x"))] * (n // 2) + [R(["a"], ["a", "x"])])
        out.append([R(["e%d" % i, "id"], ["e%d" % (n - 1 - i)]) for i in range(n if n < 260 else 60)] + [E("e%d" % i, F("id")) for i in range(n)])
    for n in [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025] + H.near(70000)[-12:] + [65536 + rng.randint(1, 9)]:
        if n < 2000 or full:
            out.append([E(w(n)), E("b", F("y"))])
        x, y = w(n), w(n)
        out.append([E(x, F(y), F("z")), E("b", F("y")), R([x, y], ["b"]), R(["b", "y"], [x, "z"]), R([x], [x, y])])
    for x in H.STRINGS:
        if spell(rng, x, 0) != x:
            continue
        out.insert(0, [E(x, F(x), F("z")), E("b", F("y"), F(x)), R([x, x], ["b"]), R(["b", "y"], [x, "z"]), R([x], ["b", x]), E(x)])
    return [{"name": ["m"] if i % 3 == 0 else [w(70)] if i % 3 == 1 else [], "entries": es} for i, es in enumerate(out)]


# ------------------------------------------------ texts that are nearly sentences
SENTENCES = [
    ["erd", "{", "}"], ["erd", "m", "{", "}"], ["erd", "{", "a", "{", "}", "}"],
    ["erd", "m", "{", "\n", "a", "{", "\n", "id", "int", "PK", "\n", "fid", "uuid", "FK", "\n", "t", "text", "\n", "}", "\n", "}", "\n"],
    ["erd", "{", "a", "{", "x", "int", ";", "y", "timestamp", "PK", "}", ";", "a", "o--o", "b", "}"],
    ["erd", "{", "a", "o--o", "b", ";", "a", ".", "x", "o--o", "b", ".", "y", "\n", "}"],
    ["erd", "{", "a", ".", "x", "o--o", "b", "}"], ["erd", "{", "a", "o--o", "b", ".", "y", "}"],
    ["erd", "`m n`", "{", "`a`", "{", "`x`", "int", "}", "\n", "`a`", ".", "`x`", "o--o", "`a`", "}"],
]
# what other languages of this kind have at such places, and what one may take for part of this one
FOREIGN = (
    KEYWORDS + [k.lower() for k in ("PK", "FK")] + [k.upper() for k in ("erd", "int", "uuid", "text", "timestamp")] + ["Erd", "Int", "Pk", "Fk", "Text"]
    + ["UK", "NN", "NULL", "null", "not null", "unique", "default", "primary key", "references a", "bool", "boolean", "string", "varchar", "varchar(10)", "float", "date",
       "datetime", "bigint", "integer", "json", "blob", "int?", "int!", "int[]", "[int]", "int(4)", "text(255)", "int PK FK", "PK int", "int int", "int = 1", "int // x", "int, ", "int PK,"]
    + ["o---o", "o-o", "o----o", "o--", "--o", "--", "-", "->", "-->", "<->", "=>", "o->o", "o-->", "<--o", "o..o", "o==o", "o--|", "|--o", "|--|", "o--*", "*--o", "*--*", "o--{",
       "}--o", "}o--o{", "||--o{", "}|..|{", "x--x", "O--O", "o- -o", "o --o", "o-- o", "0--0", "o--oo", "oo--o", "o--o o--o", "o\u2014o", "o\u2013\u2013o", "o--o:", "o--o \"x\"", "has", "to"]
    + ["a.b", "a.b.c", "a..b", ".a", "a.", "a.*", "a:b", "a::b", "a->b", "a/b", "a-b", "a$", "$a", "@a", "#a", "a#", "a!", "a?", "a'", "1", "1a", "-1", "1.5", "0x1", "a b", "A", "_", "*"]
    + ["\"a\"", "'a'", "\"\"", "[a]", "<a>", "(a)", "{a}", "``", "`a", "a`", "``a``", "`a``b`", "`a` `b`", "`a`b", "a`b`", "`a.b`", "`a`.`b`", "\u2018a\u2019", "\u201ca\u201d", "\\a", "\"a\\\"b\"", "\"a b\""]
    + ["`\\x41`", "`\\x4`", "`\\u{41}`", "`\\u{1F600}`", "`\\u{}`", "`\\U0001F600`", "`\\U00000041`", "`\\0`", "`\\00`", "`\\101`", "`\\a`", "`\\e`", "`\\v`", "`\\'`", "`\\ `",
       "`\\\n`", "`\\\r\n`", "`\\N`", "`\\T`", "`\\&`", "`\\(a)`", "`${a}`", "`\\$`", "`\\#`", "`\\u00e9\\u0301`", "`\\ud83d\\ude00`", "`\\ud83d`", "`\\ude00`", "`\\ude00\\ud83d`",
       "`\\uD83D\\uDE00`", "`\\u41`", "`\\u041`", "`\\u00041`", "`\\u 041`", "`\\u_0041`", "`\\ufdd0`", "`\\cA`", "`%41`", "`&amp;`", "`\\.`", "`\\;`", "`\\-`", "`\\s`", "`\\x{41}`"]
    + ["/* x */", "/* x", "*/", "/**/", "/* x\ny */", "# x\n", "#", "-- x\n", "; x\n", "% x\n", "' x\n", "<!-- x -->", "(* x *)", "/// x\n", "//", "//x\n", "// x \\\n y", "/", "/ /", "/ x\n", "\"\"\"x\"\"\"", "//x\r", "//x\u2028",
       "//x\u0085", "//x\x0b", "//x\x0c"]
    + [",", ", ", ",\n", ":", "::", "=", "==", ":=", "|", "||", "&", "&&", "+", "*", "!", "?", "@", "~", "^", "%", "$", "<", ">", "(", ")", "[", "]", "()", "[]", "{}", "{ }", "{{", "}}", "};", "{;", ";;", ";,", ",;", "\\", "\\\n", "\r", "\r\r\n",
       "\n\r", "\x0b", "\x0c", "\u0085", "\u2028", "\u2029", "\u00a0", "\u3000", "\u200b", "\u200d", "\u00ad", "\ufeff", "\x00", "\x1a", "\x04", "\u2026", "...", "..", ".", "end", "begin", "module", "entity", "table", "diagram", "er", "import x", "include", "as x",
       "extends b", "@x", "#[x]", "<<x>>", "style", "title x", "erd {}", "erd x {}", "o", "e", "\u0131nt", "\u017f", "\u212a", "P\u212a", "F\u212a", "\uff45\uff52\uff44", "\uff5b", "\uff1b", "\u037e", "`\u037e`"])


def nearly(rng, n):
    """Every sentence with every foreign thing in the place of one token, or between two; tokens left out, doubled, swapped.  A sample of n."""
    def put(ls):
        t = ""
        for i, x in enumerate(ls):
            t += (" " if i and x != "\n" and ls[i - 1] != "\n" else "") + x
        return t

    out = []
    # at every kind of place at least once
    for w in FOREIGN:
        for s in (SENTENCES[4], SENTENCES[5]):
            for i in range(1, len(s) - 1):
                out.append((1, put(s[:i] + [w] + s[i + 1:])))
                if s[i] != "\n" and s[i - 1] != "\n":
                    out.append((2, put(s[:i]) + w + put(s[i:])))
        for s in SENTENCES:
            for i in range(len(s) + 1):
                out.append((2, put(s[:i] + [w] + s[i:])))
                if i < len(s):
                    out.append((2, put(s[:i] + [w] + s[i + 1:])))
    for s in SENTENCES:
        for i in range(len(s)):
            out.append((1, put(s[:i] + s[i + 1:])))
            out.append((1, put(s[:i] + s[i:i + 1] + s[i:])))
            for j in range(i + 1, len(s)):
                out.append((2, put(s[:i] + [s[j]] + s[i + 1:j] + [s[i]] + s[j + 1:])))
    first = sorted({t for k, t in out if k == 1})
    rest = sorted({t for k, t in out if k == 2} - set(first))
    if len(first) > n:
        first = rng.sample(first, n)
    return first + rng.sample(rest, min(len(rest), n // 2))
