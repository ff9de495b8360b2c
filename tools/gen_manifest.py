#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = (" Trusts TLC, the JSON module, and the harness, which calls the public interface and writes down what it sees without judging it.")
SPECS = {
 "C01": ("SeirenText+SeirenGrammar (cross-checked against SeirenEBNF)", "The automaton is checked exhaustively against the grammar up to a bounded number of tokens; acceptance of thousands of texts (generated from the model, mutated, random) must be the specification's."),
 "C02": ("SeirenText+SeirenGrammar", "The module of every accepted text must be the one the specification builds from its tokens."),
 "C03": ("SeirenText+SeirenGrammar", "Pairs of spellings of the same token sequence; that they mean the same is first checked in the specification (SameMeaning), then demanded of the code."),
 "C04": ("SeirenText+SeirenGrammar (viable prefixes)", "Positions, number and expected sets of diagnostics of erroneous texts are compared with the first token after which no continuation exists."),
 "C05": ("SeirenText+TraceDoc+SeirenCli", "Termination of the lexer model under fairness; texts, the modules they give and command runs must end normally. Bounded by the sizes of the texts and by a time limit per text."),
 "C06": ("SeirenText (stray runs)", "Small chunk sequences completely, larger ones at random."),
 "C07": ("SeirenDoc", "All modules of up to a few entries over a small name pool, and random ones: boxes, rows and edges must be those the specification resolves."),
 "C08": ("SeirenLayout", "Small shapes completely, larger at random; the positions themselves must satisfy the grid invariants."),
 "C09": ("SeirenLayout", "As C08, for the rows of the boxes."),
 "C10": ("SeirenLayout (Ports)", "As C08, for connection points; exact equality of the set of points."),
 "C11": ("SeirenRoute", "All pairs of ends in small documents and random larger ones: every route must be a walk of the specification."),
 "C12": ("SeirenRoute+SeirenGeom", "As C11, exact integer geometry against every box and the view box."),
 "C13": ("SeirenRoute (shortest length over the channel graph)", "As C11; the shortest length is computed by TLC on the channel graph of the specification and agrees there with an exhaustive exploration of walks."),
 "C14": ("SeirenSvg", "The element sequence read back from the SVG must be that of the specification for the document and its layout; fonts are not compared."),
 "C15": ("SeirenSvg (curves)", "Path data of every edge against its route."),
 "C16": ("SeirenSvg", "An XML parser reads the SVG; names of every kind of character; the element structure must be that of the same document with plain names."),
 "C17": ("SeirenSession", "Histories of calls on two documents and two engines, exhaustive up to a few steps and random beyond; everything observed must be a function of the current contents. Several processes and orders."),
 "C18": ("SeirenSession", "As C17: every call order; render succeeds exactly when the specification says that the layout is complete."),
 "C19": ("SeirenWriter", "All scripts of writer events up to a bounded length are checked in the model, then replayed into the real renderer at positions scaled to the document, with random scripts beyond."),
 "C20": ("SeirenGrammar+MCModule (RoundTrip)", "All small modules and random ones are printed and parsed by the real code; the result must be the module, and the printed text must be a sentence of the specification."),
 "C21": ("SeirenCli", "Runs of the real command with inputs of every kind and faulty outputs, compared with the library and the specification."),
 "C22": ("SeirenGeom", "All rectangles and lines of a small grid and random larger ones, in exact integer arithmetic."),
 "C23": ("SeirenSvg (overlay)", "Pictures with and without the overlay must agree up to the shapes the graph demands."),
 "C25": ("SeirenCli (reports)", "Runs of the real command on erroneous texts; place and contents of every report against the diagnostic it stands for."),
 "C26": ("SeirenRoute (graph)", "As C11; nodes and connections of the recorded graph against exact geometry; every route must run along it."),
 "C27": ("SeirenMir", "All histories up to a few operations are explored in the model and replayed against the real document, whose complete state is compared after every step; long random histories beyond."),
 "C28": ("SeirenSvg, SeirenStyle", "MCDraw: all small styled documents, finished or not; random styled documents; all pairs of directions with piece lengths around the limits; random long lines."),
 "C31": ("SeirenModule", "All histories of a few steps on modules and definitions (adding, copying, compiling) are explored in the model and replayed; everything readable from all modules, definitions and documents is compared after every step; long random histories beyond."),
 "C29": ("SeirenGeom, SeirenPath", "MCPath: all histories of few path commands; all points of a small grid and random ones; random command sequences."),
 "C30": ("SeirenGraph", "All histories of a few operations are explored in the model and replayed against the real route graph, whose contents (and those of the graph it was copied from) are compared after every step; long random histories beyond."),
 "C24": ("SeirenNotebook", "The printed lines of a display must be the frame around the rendered document."),
}
checks = []
for pid in sorted(SPECS):
    spec, note = SPECS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": f"TLA+ specification ({spec}): TLC model checking, and validation of traces of the real code against it",
        "level": "model_checking",
        "level_note": note + COMMON,
    })
man = {"version": 1,
       "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../target cargo build --offline --quiet",
       "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: the public interface shows the whole abstract state. Findings: KNOWN_FINDINGS.txt."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
