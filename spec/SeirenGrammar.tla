----------------------------- MODULE SeirenGrammar -----------------------------
(* Tokens to module: the grammar as an automaton that builds the module.
   A configuration holds the state, the finished part of the module and the
   entry being read.                                                          *)
EXTENDS Naturals, Sequences, SeirenText

Sep(k) == k \in {"nl", ";"}

\* st: where in the grammar we are
\*   start, head (after "erd"), named, entry0 (entry or "}"), entry (after a complete
\*   entry), id (after the first name of an entry), idpad, dot, left, leftpad (after the
\*   left end), edge (after "o--o"), rid (after first name of the right end), rdot,
\*   field0 (field or "}"), ftype, fkey, field (after a complete field with key), end, dead
G0 == [st |-> "start", name |-> <<>>, entries |-> <<>>,
       l |-> <<>>, r |-> <<>>, fields |-> <<>>, f |-> <<>>, ty |-> ""]

Go(g, st) == [g EXCEPT !.st = st]
Clear(g) == [g EXCEPT !.l = <<>>, !.r = <<>>, !.fields = <<>>, !.f = <<>>, !.ty = ""]
DefDone(g) == Clear([g EXCEPT !.entries = Append(@, [k |-> "def", name |-> g.l[1], fields |-> g.fields]),
                              !.st = "entry"])
RelDone(g, st) == Clear([g EXCEPT !.entries = Append(@, [k |-> "rel", a |-> g.l, b |-> g.r]), !.st = st])
FieldDone(g, key) == [g EXCEPT !.fields = Append(@, [n |-> g.f, t |-> g.ty, k |-> key]), !.f = <<>>, !.ty = ""]

Step(g, t) ==
  LET k == t.k  s == g.st IN
  CASE s = "start" /\ Sep(k) -> g
    [] s = "start" /\ k = "erd" -> Go(g, "head")
    [] s = "head" /\ Sep(k) -> g
    [] s = "head" /\ k = "ident" -> [g EXCEPT !.st = "named", !.name = <<t.v>>]
    [] s \in {"head", "named"} /\ k = "{" -> Go(g, "entry0")
    [] s = "named" /\ Sep(k) -> g
    [] s \in {"entry0", "entry"} /\ Sep(k) -> Go(g, "entry0")
    [] s \in {"entry0", "entry"} /\ k = "}" -> Go(g, "end")
    [] s = "entry0" /\ k = "ident" -> [g EXCEPT !.st = "id", !.l = <<t.v>>]
    [] s \in {"id", "idpad"} /\ Sep(k) -> Go(g, "idpad")
    [] s \in {"id", "idpad"} /\ k = "{" -> Go(g, "field0")
    [] s \in {"id", "idpad", "left", "leftpad"} /\ k = "edge" -> Go(g, "edge")
    [] s = "id" /\ k = "." -> Go(g, "dot")
    [] s = "dot" /\ k = "ident" -> [g EXCEPT !.st = "left", !.l = Append(@, t.v)]
    [] s \in {"left", "leftpad"} /\ Sep(k) -> Go(g, "leftpad")
    [] s = "edge" /\ Sep(k) -> g
    [] s = "edge" /\ k = "ident" -> [g EXCEPT !.st = "rid", !.r = <<t.v>>]
    [] s = "rid" /\ k = "." -> Go(g, "rdot")
    [] s = "rid" /\ Sep(k) -> RelDone(g, "entry0")
    [] s = "rid" /\ k = "}" -> RelDone(g, "end")
    [] s = "rdot" /\ k = "ident" -> RelDone([g EXCEPT !.r = Append(@, t.v)], "entry")
    [] s = "field0" /\ Sep(k) -> g
    [] s = "field0" /\ k = "}" -> DefDone(g)
    [] s = "field0" /\ k = "ident" -> [g EXCEPT !.st = "ftype", !.f = t.v]
    [] s = "ftype" /\ k \in Types -> [g EXCEPT !.st = "fkey", !.ty = k]
    [] s = "fkey" /\ k \in Keys -> Go(FieldDone(g, k), "field")
    [] s = "fkey" /\ Sep(k) -> Go(FieldDone(g, ""), "field0")
    [] s = "fkey" /\ k = "}" -> DefDone(FieldDone(g, ""))
    [] s = "field" /\ Sep(k) -> Go(g, "field0")
    [] s = "field" /\ k = "}" -> DefDone(g)
    [] s = "end" /\ Sep(k) -> g
    [] OTHER -> Go(g, "dead")

Viable(g, t) == Step(g, t).st # "dead"
Accepting(g) == g.st = "end"
ModuleOf(g) == [name |-> g.name, entries |-> g.entries]

Kinds == {"erd", "ident", "edge", "{", "}", ";", ".", "nl"} \cup Types \cup Keys
Sample(k) == [k |-> k, v |-> IF k = "ident" THEN <<120>> ELSE <<>>]
ViableKinds(g) == {k \in Kinds : Viable(g, Sample(k))}

(* How a diagnostic names a kind of token (an identifier is never listed)     *)
Display(k) == CASE k = "edge" -> "o--o" [] k = "nl" -> "'\\n'"
                [] k = "{" -> "'{'" [] k = "}" -> "'}'" [] k = ";" -> "';'" [] k = "." -> "'.'"
                [] OTHER -> k
ViableNames(g) == {Display(k) : k \in ViableKinds(g) \ {"ident"}}
                  \cup (IF Accepting(g) THEN {"end of input"} ELSE {})

(* A shortest way to a sentence from every configuration that is not dead     *)
Completion(g) ==
  CASE g.st = "start" -> <<"erd", "{", "}">>
    [] g.st \in {"head", "named"} -> <<"{", "}">>
    [] g.st \in {"entry0", "entry", "rid"} -> <<"}">>
    [] g.st \in {"id", "idpad", "left", "leftpad"} -> <<"edge", "ident", "}">>
    [] g.st = "dot" -> <<"ident", "edge", "ident", "}">>
    [] g.st \in {"edge", "rdot"} -> <<"ident", "}">>
    [] g.st \in {"field0", "fkey", "field"} -> <<"}", "}">>
    [] g.st = "ftype" -> <<"int", "}", "}">>
    [] OTHER -> <<>>
RECURSIVE Run(_, _)
Run(g, ks) == IF ks = <<>> THEN g ELSE Run(Step(g, Sample(Head(ks))), Tail(ks))

-----------------------------------------------------------------------------
(* The printed form of a module as a sequence of tokens (newlines at the ends
   of lines, as the printer writes them)                                      *)
T(k) == [k |-> k, v |-> <<>>]
I(v) == [k |-> "ident", v |-> v]
PathToks(p) == IF Len(p) = 1 THEN <<I(p[1])>> ELSE <<I(p[1]), T("."), I(p[2])>>
FieldToks(f) == <<I(f.n), T(f.t)>> \o (IF f.k = "" THEN <<>> ELSE <<T(f.k)>>)
RECURSIVE FieldsToks(_)
FieldsToks(fs) == IF fs = <<>> THEN <<>>
                  ELSE FieldToks(fs[1]) \o (IF Len(fs) > 1 THEN <<T(";")>> ELSE <<>>) \o FieldsToks(Tail(fs))
EntryToks(e) == IF e.k = "def" THEN <<I(e.name), T("{")>> \o FieldsToks(e.fields) \o <<T("}"), T("nl")>>
                ELSE PathToks(e.a) \o <<T("edge")>> \o PathToks(e.b) \o <<T("nl")>>
RECURSIVE EntriesToks(_)
EntriesToks(es) == IF es = <<>> THEN <<>> ELSE EntryToks(es[1]) \o EntriesToks(Tail(es))
PrintToks(m) == <<T("erd")>> \o (IF m.name = <<>> THEN <<>> ELSE <<I(m.name[1])>>)
                \o <<T("{"), T("nl")>> \o EntriesToks(m.entries) \o <<T("}")>>
RECURSIVE Parse(_, _)
Parse(g, ts) == IF ts = <<>> THEN g ELSE Parse(Step(g, ts[1]), Tail(ts))
=============================================================================
