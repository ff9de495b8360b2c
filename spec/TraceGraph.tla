------------------------------- MODULE TraceGraph -------------------------------
(* Recorded histories of real route graphs: the steps, what they answered and all
   that can be read from the graph, and from the one it was copied from, after
   each of them.                                                                 *)
EXTENDS SeirenGraph, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, told
H == Trace[c].steps
Init == GraphInit /\ k = 0 /\ told = 0 /\ \E i \in 1..Len(Trace) : c = i
Next == /\ k < Len(H) /\ GraphStep(H[k + 1].step) /\ told' = Answer(H[k + 1].step)
        /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<gvars, c, k, told>>
S == H[k]
\* o: what was read; g: [nodes, links, ports]
Reads(o, g) ==
  /\ Len(o.nodes) = Len(g.nodes)
  /\ \A i \in 1..Len(g.nodes) :
       /\ o.nodes[i].at = g.nodes[i].at /\ o.nodes[i].d = g.nodes[i].d
       /\ \A d \in 1..4 : o.nodes[i].open[d] = Open(g.nodes[i], GSides[d])
  /\ Cardinality({o.nodes[i].id : i \in 1..Len(o.nodes)}) = Len(g.nodes)
  /\ Len(o.links) = Len(g.links)
  /\ \A i \in 1..Len(g.links) : {o.links[i][1], o.links[i][2]} = {g.links[i].a, g.links[i].b}
  /\ o.all = Len(g.nodes) /\ o.links2 = Len(g.links)
  /\ \A p \in 1..NPorts : o.ports[p] = g.ports[p]
C30 == k > 0 => S.panic = "" /\ S.answer = told /\ Reads(S.graph, Whole) /\ Reads(S.kept, kept)
\* the overlay of a graph whose connections are level or plumb (read after the last step)
Count(els, t, P(_)) == Cardinality({i \in 1..Len(els) : els[i].t = t /\ P(els[i])})
Shows == (k = Len(H) /\ S.panic = "" /\ S.over.drawn) =>
  /\ S.over.pic.wf
  /\ \A i \in 1..Len(glinks) :
       LET p == gnodes[glinks[i].a].at
           q == gnodes[glinks[i].b].at
       IN Count(S.over.pic.els, "line", LAMBDA e : {<<e.n.x1, e.n.y1>>, <<e.n.x2, e.n.y2>>} = {p, q})
          = Cardinality({j \in 1..Len(glinks) : {gnodes[glinks[j].a].at, gnodes[glinks[j].b].at} = {p, q}})
  /\ \A i \in 1..Len(gnodes) :
       Count(S.over.pic.els, "circle", LAMBDA e : <<e.n.cx, e.n.cy>> = gnodes[i].at)
       = Cardinality({j \in 1..Len(gnodes) : gnodes[j].at = gnodes[i].at})
=============================================================================
