"""What the sources under test suggest for inputs: the numbers and the strings written in them that the pinned
sources do not have (spec-independent, like the dictionary of a fuzzer).  They only steer the generators towards
sizes, names and variables at which something may change; what is right is decided by the specification alone.
On the pinned tree there are none."""
import collections, json, os, re

REPO = os.environ.get("SEIREN_REPO", "/repo")
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints_base.json")
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)"(?P<raw>.*?)"\1|b?"(?P<str>(?:\\.|[^"\\])*)"|b?'(?P<chr>\\.|\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|[^'\\])'
|(?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?)(?:[iuf](?:8|16|32|64|size))?)|(?P<ty>\b[iu](?:8|16)\b)|<<\s*(?P<sh>[0-9]+)''', re.S | re.X)
ESC = re.compile(r"\\(?:u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|\n\s*|(.))", re.S)


def plain(s):
    short = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}
    return ESC.sub(lambda m: chr(int(m[1] or m[2], 16)) if m[1] or m[2] else short.get(m[3], m[3] or ""), s)


def scan(repo):
    ints, strs = collections.Counter(), collections.Counter()
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(d, f), errors="replace").read()
            cut = re.search(r"#\[cfg\(test\)\]\s*mod", text)
            for m in TOKEN.finditer(text[:cut.start()] if cut else text):
                for k in ("raw", "str", "chr"):
                    if m[k] is not None:
                        s = m[k] if k == "raw" else plain(m[k])
                        if 0 < len(s) <= 40:
                            strs[s] += 1
                if m["num"]:
                    t = re.sub(r"[iuf](8|16|32|64|size)$", "", m["num"]) if not m["num"].startswith("0x") else re.sub(r"[iu](8|16|32|64|size)$", "", m["num"])
                    t = t.replace("_", "")
                    n = int(t, 16) if t.startswith("0x") else int(t[2:], 2) if t.startswith("0b") else float(t)
                    if 0 < n < 1e9:
                        ints[n if n != int(n) else int(n)] += 1
                if m["ty"]:
                    n = {"u8": 256, "i8": 128, "u16": 65536, "i16": 32768}[m["ty"]]
                    ints[n] += 1
                if m["sh"] and 0 < int(m["sh"]) < 25:
                    ints[1 << int(m["sh"])] += 1
    return ints, strs


def new():
    ints, strs = scan(REPO)
    base = json.load(open(BASE)) if os.path.exists(BASE) else {"ints": {}, "strings": {}}
    if os.environ.get("VERIF_HINTS"):   # to try the generators: numbers and strings separated by blanks
        w = os.environ["VERIF_HINTS"].split()
        return sorted(float(x) for x in w if x.isdigit()), [x for x in w if not x.isdigit()]
    n = [v for v, c in ints.items() if c > base["ints"].get(str(v), 0)]
    s = [v for v, c in strs.items() if c > base["strings"].get(v, 0)]
    return sorted(n)[:14], sorted(s)[:40]


NUMBERS, STRINGS = new()
INTS = [int(n) for n in NUMBERS if n == int(n) and n > 1]
# environment variables a program of this kind may look at
ENV = ["NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "DEBUG", "RUST_LOG", "RUST_BACKTRACE", "CI", "TERM", "COLUMNS", "LINES", "LANG", "LC_ALL",
       "LC_NUMERIC", "TZ", "HOME", "USER", "PWD", "TMPDIR", "XDG_CONFIG_HOME", "SOURCE_DATE_EPOCH", "SEIREN_DEBUG", "SEIREN", "SEIREN_CONFIG", "VERBOSE", "EDITOR", "PAGER",
       "DISPLAY", "SVG_DEBUG", "EVCXR_IS_RUNTIME"] + [s for s in STRINGS if re.fullmatch(r"[A-Z][A-Z0-9_]*", s)]


def near(hi, lo=1, ns=None):
    """The numbers around the new ones, within bounds."""
    return sorted({k for n in (INTS if ns is None else ns) for k in ((n - 1, n, n + 1, n + 2) if n < 120 else (n, n + 2)) if lo <= k <= hi})


def choice(rng, seq, hi=10 ** 9, lo=1, p=0.2, mul=1):
    """One of seq, or sometimes a number near a new one."""
    ks = near(hi // mul, lo)
    if ks and rng.random() < p:
        return mul * rng.choice(ks)
    return rng.choice(seq)


def some(rng, hi, n, lo=2):
    """At most n of them."""
    ks = near(hi, lo)
    return ks if len(ks) <= n else sorted(rng.sample(ks, n))


def name_limit(rng):
    """Long names are the exception."""
    return 3000 if INTS and rng.random() < 0.02 else 70


if __name__ == "__main__":
    import sys
    if "--base" in sys.argv:
        ints, strs = scan(REPO)
        json.dump({"ints": {str(k): v for k, v in sorted(ints.items())}, "strings": dict(sorted(strs.items()))}, open(BASE, "w"), indent=0)
    print(NUMBERS, STRINGS)
