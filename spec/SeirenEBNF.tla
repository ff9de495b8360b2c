------------------------------- MODULE SeirenEBNF -------------------------------
(* The grammar once more, as the documentation of the parser writes it: which
   positions can be reached behind which construct.  Used to check the automaton
   of SeirenGrammar, not to judge the code.  w is a sequence of token kinds.    *)
EXTENDS Naturals, Sequences, SeirenText

One(w, S, ks) == {i + 1 : i \in {j \in S : j <= Len(w) /\ w[j] \in ks}}
SepSet == {"nl", ";"}

RECURSIVE Pad(_, _)
Pad(w, S) == LET n == S \cup One(w, S, SepSet) IN IF n = S THEN S ELSE Pad(w, n)
Opt(S, T) == S \cup T

Field(w, S) == LET t == One(w, One(w, S, {"ident"}), Types) IN Opt(t, One(w, t, Keys))
RECURSIVE MoreFields(_, _)
MoreFields(w, S) ==
  LET n == S \cup Field(w, Pad(w, One(w, S, SepSet))) IN IF n = S THEN S ELSE MoreFields(w, n)
Fields(w, S) == LET p == Pad(w, S) IN Opt(p, Pad(w, MoreFields(w, Field(w, p))))
Definition(w, S) == One(w, Fields(w, One(w, Pad(w, One(w, S, {"ident"})), {"{"})), {"}"})
PathE(w, S) == LET i == One(w, S, {"ident"}) IN Opt(i, One(w, One(w, i, {"."}), {"ident"}))
Relation(w, S) == PathE(w, Pad(w, One(w, Pad(w, PathE(w, S)), {"edge"})))
Entry(w, S) == Definition(w, S) \cup Relation(w, S)
RECURSIVE MoreEntries(_, _)
MoreEntries(w, S) ==
  LET n == S \cup Entry(w, Pad(w, One(w, S, SepSet))) IN IF n = S THEN S ELSE MoreEntries(w, n)
Program(w, S) ==
  LET e == Pad(w, One(w, Pad(w, S), {"erd"}))
      n == Opt(e, Pad(w, One(w, e, {"ident"})))
      b == Pad(w, One(w, n, {"{"}))
      c == Opt(b, Pad(w, MoreEntries(w, Entry(w, b))))
  IN  Pad(w, One(w, c, {"}"}))
IsSentence(w) == Len(w) + 1 \in Program(w, {1})
=============================================================================
