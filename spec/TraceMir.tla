-------------------------------- MODULE TraceMir --------------------------------
(* Recorded histories of real documents: the steps and everything that can be read
   from the document after each of them.                                         *)
EXTENDS SeirenMir, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
H == Trace[c].steps
Init == MirInit /\ k = 0 /\ \E i \in 1..Len(Trace) : c = i
Next == k < Len(H) /\ MirStep(H[k + 1].step) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<mvars, c, k>>
S == H[k]
Ids(ns) == {ns[i].id : i \in 1..Len(ns)}
RECURSIVE CountPorts(_)
CountPorts(i) == IF i > Len(nodes) THEN 0 ELSE Len(nodes[i].ports) + CountPorts(i + 1)
C27 == k > 0 =>
  /\ S.panic = ""
  /\ S.body = body
  /\ Len(S.nodes) = Len(nodes)
  /\ \A i \in 1..Len(nodes) :
       LET n == nodes[i]
           o == S.nodes[i]
       IN /\ o.kind = n.kind /\ o.said = n.said /\ o.kids = n.kids /\ o.nkids = Len(n.kids)
          /\ o.at = n.at /\ o.size = n.size /\ o.rect = Area(n)
          /\ Len(o.ports) = Len(n.ports)
          /\ \A j \in 1..Len(n.ports) : o.ports[j].x = n.ports[j].x /\ o.ports[j].y = n.ports[j].y /\ o.ports[j].d = n.ports[j].d
  /\ Cardinality(Ids(S.nodes)) = Len(nodes)
  \* the others are all there, as they were created, and no two nodes go by one number
  /\ S.more = more /\ S.distinct = Len(nodes) + more
  \* connection points are told apart by their numbers
  /\ Cardinality(UNION {{S.nodes[i].ports[j].id : j \in 1..Len(S.nodes[i].ports)} : i \in 1..Len(nodes)}) = S.nports
  /\ S.nports = CountPorts(1)
  /\ S.fresh   \* the number returned for a new port, node or edge is the one under which it is found
  /\ Len(S.edges) = Len(links)
  /\ \A i \in 1..Len(links) : S.edges[i] = [a |-> links[i].a, b |-> links[i].b, ga |-> links[i].a, gb |-> links[i].b,
                                            some |-> links[i].some, pts |-> links[i].pts]
=============================================================================
