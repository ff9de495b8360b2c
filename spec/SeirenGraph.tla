------------------------------ MODULE SeirenGraph ------------------------------
(* The route graph as a container.  Nodes stand at places; a node that is a
   connection point also faces a side.  No two nodes are alike, no two are
   connected twice, nothing is ever taken away.  A step is [op, a, b, v]:
     node v (place)        port a (number of a connection point) b (side) v (place)
     link a b (nodes)      fork: go on with a copy                               *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
  gnodes, \* sequence of [at, d]; d = "" for a junction
  glinks, \* sequence of [a, b], as first put
  gports, \* connection point -> node, 0 if it was never put
  kept    \* the graph a copy was made of last: [nodes, links, ports]
gvars == <<gnodes, glinks, gports, kept>>
NPorts == 4
GSides == <<"U", "R", "D", "L">>
Whole == [nodes |-> gnodes, links |-> glinks, ports |-> gports]
GraphInit == gnodes = <<>> /\ glinks = <<>> /\ gports = [p \in 1..NPorts |-> 0]
             /\ kept = [nodes |-> <<>>, links |-> <<>>, ports |-> [p \in 1..NPorts |-> 0]]

Places(n) == {i \in 1..Len(gnodes) : gnodes[i] = n}
\* the number under which a node is kept
NumberOf(n) == IF Places(n) # {} THEN CHOOSE i \in Places(n) : TRUE ELSE Len(gnodes) + 1
PutNode(n) == gnodes' = IF Places(n) # {} THEN gnodes ELSE Append(gnodes, n)
Junction(s) == s.op = "node" /\ PutNode([at |-> s.v, d |-> ""]) /\ UNCHANGED <<glinks, gports, kept>>
Facing(s) == LET n == [at |-> s.v, d |-> GSides[s.b]]
             IN s.op = "port" /\ s.a \in 1..NPorts /\ PutNode(n) /\ gports' = [gports EXCEPT ![s.a] = NumberOf(n)]
                /\ UNCHANGED <<glinks, kept>>
Linked(a, b) == \E i \in 1..Len(glinks) : {glinks[i].a, glinks[i].b} = {a, b}
Connect(s) == /\ s.op = "link" /\ s.a \in 1..Len(gnodes) /\ s.b \in 1..Len(gnodes)
              /\ glinks' = IF Linked(s.a, s.b) THEN glinks ELSE Append(glinks, [a |-> s.a, b |-> s.b])
              /\ UNCHANGED <<gnodes, gports, kept>>
Fork(s) == s.op = "fork" /\ kept' = Whole /\ UNCHANGED <<gnodes, glinks, gports>>
GraphStep(s) == Junction(s) \/ Facing(s) \/ Connect(s) \/ Fork(s)
\* the number a step answers with
Answer(s) == CASE s.op = "node" -> NumberOf([at |-> s.v, d |-> ""])
               [] s.op = "port" -> NumberOf([at |-> s.v, d |-> GSides[s.b]])
               [] OTHER -> 0
\* a line may reach a node on this side
Open(n, d) == n.d = "" \/ n.d = d
-----------------------------------------------------------------------------
Different == \A i, j \in 1..Len(gnodes) : i # j => gnodes[i] # gnodes[j]
OnceLinked == \A i, j \in 1..Len(glinks) : i # j => {glinks[i].a, glinks[i].b} # {glinks[j].a, glinks[j].b}
EndsThere == \A i \in 1..Len(glinks) : glinks[i].a \in 1..Len(gnodes) /\ glinks[i].b \in 1..Len(gnodes)
PortsThere == \A p \in 1..NPorts : gports[p] = 0 \/ (gports[p] \in 1..Len(gnodes) /\ gnodes[gports[p]].d # "")
Starts(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
OnlyGrows == [][Starts(gnodes, gnodes') /\ Starts(glinks, glinks') /\ Len(gnodes') + Len(glinks') <= Len(gnodes) + Len(glinks) + 1]_gvars
=============================================================================
