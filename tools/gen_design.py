#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, properties.jsonl, evidence/, KNOWN_FINDINGS.txt and seeded/."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
HOW = {
 "C01": ("SeirenText, SeirenGrammar", "MCGrammar: all viable token sequences (automaton = EBNF, completes, dead stays dead); MCText: all texts of few chunks", "those texts, mutations, random texts, every character in every place, large texts"),
 "C02": ("SeirenGrammar", "MCGrammar (the automaton builds what the EBNF denotes)", "printed model modules, random modules in random spellings with all escapes, long names"),
 "C03": ("SeirenText", "MCGrammar, MCText", "variants of one token sequence: blanks, comments, CRLF, separators, quoting; the whole family must agree with the specification and with each other"),
 "C04": ("SeirenGrammar (viable prefixes)", "MCGrammar: Viable ⇔ completable", "every viable sequence + one more token of every kind, cut texts, stray characters"),
 "C05": ("SeirenText, TraceDoc, SeirenCli", "MCCli, MCText (every text is consumed or refused)", "random and repetitive texts, every module they yield compiled to the end, the command on them; boxes of thousands of rows"),
 "C06": ("SeirenText (stray runs)", "MCText: positions, coverage, order, determinism", "texts with stray runs everywhere"),
 "C07": ("SeirenDoc", "MCModule: all modules of few entries over few names (Resolved, Moved)", "those modules, random ones with clashing and missing names, large ones"),
 "C08": ("SeirenLayout", "MCLayout: all documents up to 7 (8) boxes × 2 (3) rows", "those and random ones up to 300 boxes or rows"),
 "C09": ("SeirenLayout", "MCLayout", "as C08"),
 "C10": ("SeirenLayout", "MCLayout (Ports, NoEarlyPorts)", "as C08"),
 "C11": ("SeirenRoute", "MCRoute: all walks between all ends of all small documents", "those documents with all those edges, every pair of boxes in larger grids, random ones, several edges at once"),
 "C12": ("SeirenRoute, SeirenGeom", "MCRoute (Arrived ⇒ clear of boxes)", "as C11"),
 "C13": ("SeirenRoute (shortest length)", "MCRoute: no walk is shorter than the fixpoint, one is as short", "as C11, smaller sample (TLC computes every shortest length)"),
 "C14": ("SeirenSvg", "MCLayout (order of shapes follows the boxes)", "pictures of model and random documents"),
 "C15": ("SeirenSvg (curves)", "MCRoute (walks and their turns)", "pictures with routes; hand-made lines with all turns and lengths (TraceDraw)"),
 "C16": ("SeirenSvg", "none of its own (TraceDoc states it on every recorded document)", "names with every markup, control and non-BMP character"),
 "C17": ("SeirenSession (memo)", "MCSession: all histories of two documents and two engines up to a length", "those histories, random ones up to dozens of steps, incremental growth vs from scratch"),
 "C18": ("SeirenSession (what is missing)", "MCSession", "as C17, rendering at every stage"),
 "C19": ("SeirenWriter", "MCWriter: all scripts of writer events", "those scripts stretched over documents of many sizes; the command writing to full or limited files"),
 "C20": ("SeirenGrammar (Print)", "MCGrammar, MCModule (RoundTrip)", "printed modules parsed again"),
 "C21": ("SeirenCli", "MCCli", "runs of the command: file, stdin, missing file, bad bytes, any name, limited output"),
 "C22": ("SeirenGeom", "MCGeom: two independent accounts agree for all lines and rectangles of a grid", "those, random ones, negative and large coordinates, all other rectangle operations"),
 "C23": ("SeirenSvg (overlay)", "MCRoute", "pictures with and without the overlay of the same document"),
 "C24": ("SeirenNotebook", "MCNotebook: every picture of a few lines, also marker-like ones, can be read back", "the real process output of notebook cells, several in a row"),
 "C25": ("SeirenCli (places, reports)", "MCCli (places and reports of all small texts)", "invalid texts of several lines with wide and multi-byte characters, many diagnostics, as file and on stdin"),
 "C26": ("SeirenRoute (graph)", "MCRoute (Reachable: the junctions connect all ends)", "the engine's graph after routing, read through its API"),
 "C27": ("SeirenMir", "MCMir: all histories up to 4 (5) steps (Kept: one thing changes at a time)", "those, random histories up to 400 steps, everything readable read back after every step"),
 "C28": ("SeirenSvg, SeirenStyle", "MCDraw: all small styled documents, also unfinished ones", "hand-made documents with random styles, places and paths, also unfinished ones"),
 "C30": ("SeirenGraph", "MCGraph: all histories up to 4 (5) steps (OnlyGrows, Different, OnceLinked)", "those, random histories up to 400 steps with copies, grids with overlay"),
 "C31": ("SeirenModule, SeirenResolve", "MCEdits: all histories up to 5 (6) steps (Grows, DocsSound); MCModule (InOneGo: the same documents as step by step)", "those, random histories up to 300 (1200) steps with copies and compilations in between, everything read back after every step"),
 "C29": ("SeirenGeom, SeirenPath", "MCPath: all histories of few path commands", "all pairs of points of a grid, random ones, random paths"),
}
ev = lambda i: json.load(open(f"evidence/{i}.json"))
rows = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    e = ev(i)
    models = sorted({r["module"] for r in e["coverage"]["tlc_runs"] if r["what"] == "model checking"})
    n = e["coverage"]["traces_validated_against_impl"]
    h = HOW[i]
    rows.append(f"| {i} | {p['title']} | {h[0]} | {h[1]} | {h[2]} ({n} traces, {e['coverage']['states']} states) | {round(e.get('wall_s', e.get('wall_seconds', 0)) or 0)} |")
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for l in open("KNOWN_FINDINGS.txt"):
    if l.startswith("fixed:"):
        _, p, c, w = l.split(" ", 3)
        fixes.append(f"| {p[9:]} | `{c}` | {w.strip()} |")
mx = json.load(open("tools/matrix.json")) if os.path.exists("tools/matrix.json") else {}
bugs = ["| planted bug | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    bugs.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(mx.get(d, []))} |")
s = open("tools/DESIGN.in.md").read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXES@@", "\n".join(fixes)).replace("@@BUGS@@", "\n".join(bugs))
open("DESIGN.md", "w").write(s)
