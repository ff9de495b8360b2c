------------------------------- MODULE TraceRoute -------------------------------
(* Routes in documents put together by hand: boxes placed by the engine or in a
   wider grid, anywhere on the plane, ends at any box or row (the header too),
   some boxes without a place, routed some times before, with boxes and edges
   added or moved in between.
     shape     number of rows of every box, what the document was made of
     ends      the ends of the edges, [box] or [box, row]
     geo       boxes, rows and connection points when the routes were drawn
     vb        the view box: of the engine, or the boxes with a margin
     routes    the routes              channels   the route graph
     grid      the boxes stand in columns and rows at least a gap apart
   The channels and the shortest lengths are computed edge by edge.            *)
EXTENDS SeirenRoute, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Goal  \* "legal" or "short"
VARIABLES c, stage, re, J, nb
O == Trace[c]
Init ==
  /\ \E i \in 1..Len(Trace) : c = i
  /\ stage = "start" /\ re = 0 /\ J = {} /\ nb = <<>>
  /\ heights = <<>> /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0

Rects == {O.geo[i].rect : i \in {k \in 1..Len(O.geo) : O.geo[k].rect # <<>>}}
NodeOf(r) == IF Len(r) = 1 THEN O.geo[r[1]] ELSE O.geo[r[1]].rows[r[2]]
SameShape ==
  /\ O.panic = "" /\ Len(O.geo) = Len(O.shape)
  /\ \A i \in 1..Len(O.geo) : Len(O.geo[i].rows) = O.shape[i]
  /\ Len(O.routes) = Len(O.ends)
Ports(r) == Range(NodeOf(r).ports)
Points(i) == O.routes[i].pts
Standing2(i) == Ports(O.ends[i][1]) # {} /\ Ports(O.ends[i][2]) # {}

Channels ==
  /\ stage = "start" /\ Goal = "short" /\ SameShape /\ Len(O.ends) > 0
  /\ LET ps == UNION {Ports(O.ends[i][1]) \cup Ports(O.ends[i][2]) : i \in 1..Len(O.ends)}
         j == Junctions(Rects, ps)
     IN J' = j /\ nb' = Neighbours(j, Rects)
  /\ stage' = "route" /\ re' = 1 /\ UNCHANGED c
NextEdge == stage = "route" /\ re < Len(O.ends) /\ re' = re + 1 /\ UNCHANGED <<c, stage, J, nb>>
Next == (Channels \/ NextEdge) /\ UNCHANGED lvars
Spec == Init /\ [][Next]_<<c, stage, re, J, nb, lvars>>

-----------------------------------------------------------------------------
\* C11: in a grid there is always a way; elsewhere what there is has to be legal
C11 == stage = "start" =>
  /\ SameShape
  /\ \A i \in 1..Len(O.ends) :
       /\ (O.grid /\ Standing2(i)) => O.routes[i].some
       /\ O.routes[i].some => Legal(Points(i), NodeOf(O.ends[i][1]).ports, NodeOf(O.ends[i][2]).ports)
C12 == stage = "start" =>
  /\ SameShape
  /\ O.grid => \A i \in 1..Len(O.ends) : O.routes[i].some => (Clear(Points(i), Rects) /\ InView(Points(i), O.vb))
C13 ==
  /\ SameShape
  /\ stage = "route" =>
       LET best == Shortest(Ports(O.ends[re][1]), Ports(O.ends[re][2]), J, nb, Rects)
       IN best < Infinite => (O.routes[re].some /\ ShortEnough(Points(re), best, J))

Ch == O.channels
Standing(k, p) == k \in 1..Len(Ch.nodes) /\ Ch.nodes[k] = At(p) /\ Ch.sides[k] = p.d
Stands(ks, ps) == Len(ks) = Len(ps) /\ \A i \in 1..Len(ps) : Standing(ks[i], ps[i])
Locations == {Ch.nodes[i] : i \in 1..Len(Ch.nodes)}
LinkEnds == {{Ch.nodes[Ch.links[k][1]], Ch.nodes[Ch.links[k][2]]} : k \in 1..Len(Ch.links)}
\* every connection point in the graph is of an end
NoStrangers == \A k \in 1..Len(Ch.nodes) : Ch.sides[k] # "" => \E i \in 1..Len(Ch.ends) : k \in Range(Ch.ends[i][1]) \cup Range(Ch.ends[i][2])
RECURSIVE Along(_, _)
Along(p, q) ==
  \/ {p, q} \in LinkEnds
  \/ \E m \in Locations : m # p /\ m # q /\ {p, m} \in LinkEnds /\ Common(p, q, <<m[1], m[2], 0, 0>>) # <<>> /\ Along(m, q)
C26 == stage = "start" =>
  /\ SameShape /\ Len(Ch.ends) = Len(O.ends)
  /\ NoStrangers
  /\ DistinctNodes(Ch.nodes, Ch.sides) /\ Roomy(Ch.nodes, Ch.sides, Rects)
  /\ O.grid => GraphHolds(Ch.nodes, Ch.sides, Ch.links, Rects)
  /\ \A i \in 1..Len(O.ends) :
       /\ Stands(Ch.ends[i][1], NodeOf(O.ends[i][1]).ports) /\ Stands(Ch.ends[i][2], NodeOf(O.ends[i][2]).ports)
       /\ O.routes[i].some => \A k \in 1..(Len(Points(i)) - 1) : Along(Points(i)[k], Points(i)[k + 1])
=============================================================================
