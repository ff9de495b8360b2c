----------------------------- MODULE SeirenResolve -----------------------------
(* What paths denote, and the document of a module in one go (SeirenDoc does the
   same step by step; the model MCModule says that they agree).                 *)
EXTENDS Naturals, Sequences

\* the last registration of a path counts
Denotes(r, p) == \E i \in 1..Len(r) : r[i].p = p
RECURSIVE Lookup(_, _, _)
Lookup(r, p, i) == IF r[i].p = p THEN r[i].ref ELSE Lookup(r, p, i - 1)

RowsOf(d) == <<[n |-> d.name, t |-> "", k |-> ""]>> \o
             [i \in 1..Len(d.fields) |-> [n |-> d.fields[i].n, t |-> d.fields[i].t, k |-> d.fields[i].k]]
PathsOf(d, b) == [i \in 1..Len(d.fields) |-> [p |-> <<d.name, d.fields[i].n>>, ref |-> <<b, i + 1>>]]
                 \o <<[p |-> <<d.name>>, ref |-> <<b>>]>>

IsDef(e) == e.k = "def"
IsRel(e) == e.k = "rel"
RECURSIVE RegOf(_, _)
RegOf(defs, n) == IF n = 0 THEN <<>> ELSE RegOf(defs, n - 1) \o PathsOf(defs[n], n)
DocOf(m) ==
  LET defs == SelectSeq(m.entries, IsDef)
      reg == RegOf(defs, Len(defs))
      good(e) == Denotes(reg, e.a) /\ Denotes(reg, e.b)
      rels == SelectSeq(SelectSeq(m.entries, IsRel), good)
  IN [boxes |-> [i \in 1..Len(defs) |-> RowsOf(defs[i])],
      edges |-> [i \in 1..Len(rels) |-> [a |-> Lookup(reg, rels[i].a, Len(reg)), b |-> Lookup(reg, rels[i].b, Len(reg))]]]
=============================================================================
