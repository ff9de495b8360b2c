-------------------------------- MODULE MCModule --------------------------------
(* All modules of at most MaxEntries entries over small names.  They are printed
   and parsed (SeirenGrammar), resolved (SeirenDoc), and written out for replay.  *)
EXTENDS SeirenGrammar, TLC, Json
CONSTANTS MaxEntries, EmitEvery

VARIABLE mod, dphase, ei, boxes, reg, edges
D == INSTANCE SeirenDoc

Names == {<<97>>, <<98>>}
Fields == {[n |-> <<97>>, t |-> "int", k |-> "PK"], [n |-> <<98>>, t |-> "text", k |-> ""],
           [n |-> <<97>>, t |-> "uuid", k |-> "FK"]}
FieldSeqs == {<<>>} \cup {<<f>> : f \in Fields} \cup {<<f, h>> : f, h \in Fields}
Paths == {<<n>> : n \in Names} \cup {<<n, f>> : n, f \in Names}
Defs == {[k |-> "def", name |-> n, fields |-> fs] : n \in Names, fs \in FieldSeqs}
Rels == {[k |-> "rel", a |-> p, b |-> q] : p, q \in Paths}

vars == <<mod, dphase, ei, boxes, reg, edges>>
Init == \E nm \in {<<>>, <<<<97>>>>} :
          /\ mod = [name |-> nm, entries |-> <<>>]
          /\ dphase = "build" /\ ei = 0 /\ boxes = <<>> /\ reg = <<>> /\ edges = <<>>
Add(e) == /\ dphase = "build" /\ Len(mod.entries) < MaxEntries
          /\ mod' = [mod EXCEPT !.entries = Append(@, e)]
          /\ UNCHANGED <<dphase, ei, boxes, reg, edges>>
Finish == dphase = "build" /\ dphase' = "declare" /\ UNCHANGED <<mod, ei, boxes, reg, edges>>
Next == (\E e \in Defs \cup Rels : Add(e)) \/ Finish \/ D!DocNext
Spec == Init /\ [][Next]_vars

Emit == (dphase = "build" /\ mod.entries # <<>>) => PrintT("GEN" \o ToJson(mod))

RoundTrip == dphase = "build" =>
  LET p == Parse(G0, PrintToks(mod)) IN Accepting(p) /\ ModuleOf(p) = mod

NDefs == Len(SelectSeq(mod.entries, LAMBDA e : e.k = "def"))
Rows(ref) == boxes[ref[1]]
\* the resolved document on its own terms
Resolved == dphase = "resolved" =>
  /\ Len(boxes) = NDefs
  /\ \A i \in 1..Len(edges) : \A r \in {edges[i].a, edges[i].b} :
       /\ r[1] \in 1..Len(boxes)
       /\ Len(r) = 2 => r[2] \in 2..Len(boxes[r[1]])
  \* an edge's ends carry the names the relation gives, and no later declaration has them
  /\ \A i \in 1..Len(mod.entries) : mod.entries[i].k = "rel" =>
       \A p \in {mod.entries[i].a, mod.entries[i].b} :
         (\E b \in 1..Len(boxes) : boxes[b][1].n = p[1] /\ (Len(p) = 2 => \E r \in 2..Len(boxes[b]) : boxes[b][r].n = p[2]))
         <=> D!Denotes(reg, p)
  /\ \A i \in 1..Len(reg) :
       LET ref == D!Lookup(reg, reg[i].p, Len(reg))  p == reg[i].p IN
       /\ boxes[ref[1]][1].n = p[1]
       /\ Len(p) = 2 => /\ boxes[ref[1]][ref[2]].n = p[2]
                        /\ \A b \in (ref[1] + 1)..Len(boxes) : boxes[b][1].n = p[1] => \A r \in 2..Len(boxes[b]) : boxes[b][r].n # p[2]
       /\ Len(p) = 1 => \A b \in (ref[1] + 1)..Len(boxes) : boxes[b][1].n # p[1]
\* edges do not depend on where the relations stand
Moved == dphase = "resolved" =>
  LET defs == SelectSeq(mod.entries, LAMBDA e : e.k = "def")
      rels == SelectSeq(mod.entries, LAMBDA e : e.k = "rel")
      ok(e) == D!Denotes(reg, e.a) /\ D!Denotes(reg, e.b)
      good == SelectSeq(rels, ok)
  IN  edges = [i \in 1..Len(good) |-> [a |-> D!Lookup(reg, good[i].a, Len(reg)), b |-> D!Lookup(reg, good[i].b, Len(reg))]]
InOneGo == dphase = "resolved" => D!DocOf(mod) = [boxes |-> boxes, edges |-> edges]
=============================================================================
