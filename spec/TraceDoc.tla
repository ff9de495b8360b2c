------------------------------- MODULE TraceDoc -------------------------------
(* Validation of recorded compilations.  Every line of the trace is one module
   with what the real code made of it, stage by stage:
     content  the document          vb, geo  view box, boxes, rows, connection points
     shown    the view box handed to the renderer
     routes   the route of every edge         pic    the picture, element by element
   The specification resolves the same module itself; each later stage is judged
   on what the code did in the stages before it.                               *)
EXTENDS SeirenDoc, SeirenSvg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Goal   \* "doc", "places", "routes" or "picture"

VARIABLES
  c,      \* the case
  stage,  \* "resolve", "place", "route", "emit", "end"
  re,     \* the edge looked at
  J, nb   \* the channels of the document
vars == <<c, stage, re, J, nb, dvars, svars>>
O == Trace[c]

\* stages a panic leaves without result
Reached(s) == CASE s = "resolve" -> O.panic \notin {"dead", "resolve"}
                [] s = "place" -> O.panic \notin {"dead", "resolve", "place"}
                [] s = "ports" -> O.panic \notin {"dead", "resolve", "place", "ports"}
                [] s = "route" -> O.panic \notin {"dead", "resolve", "place", "ports", "route"}
                [] s = "render" -> O.panic = "" \/ O.panic = "overlay"

LDummy == heights = <<>> /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0
Init ==
  /\ \E i \in 1..Len(Trace) : c = i /\ DocInit(Trace[i].mod)
  /\ stage = "resolve" /\ re = 0 /\ J = {} /\ nb = <<>> /\ SvgInit /\ LDummy

Rects == {O.geo[i].rect : i \in 1..Len(O.geo)}
NodeOf(r) == IF Len(r) = 1 THEN O.geo[r[1]] ELSE O.geo[r[1]].rows[r[2]]
\* has the code the boxes, rows and edges the specification has? (C07)
SameShape ==
  /\ Reached("resolve")
  /\ Len(O.content.boxes) = Len(boxes)
  /\ \A i \in 1..Len(boxes) : Len(O.content.boxes[i].rows) = Len(boxes[i])
  /\ Len(O.content.edges) = Len(edges)
  /\ \A i \in 1..Len(edges) : O.content.edges[i].a = edges[i].a /\ O.content.edges[i].b = edges[i].b
Points(i) == O.routes[i].pts
AllRouted == \A i \in 1..Len(O.routes) : O.routes[i].some /\ Len(O.routes[i].pts) >= 2

Resolve == stage = "resolve" /\ dphase # "resolved" /\ DocNext /\ UNCHANGED <<c, stage, re, J, nb, svars>>
Placed ==
  /\ stage = "resolve" /\ dphase = "resolved" /\ Goal # "doc"
  /\ stage' = "place"
  /\ UNCHANGED <<c, re, J, nb, dvars, svars>>
Channels ==
  /\ stage = "place" /\ Goal = "routes" /\ SameShape /\ Reached("route") /\ Len(edges) > 0
  /\ LET ps == UNION {Range(NodeOf(edges[i].a).ports) \cup Range(NodeOf(edges[i].b).ports) : i \in 1..Len(edges)}
         j == Junctions(Rects, ps)
     IN J' = j /\ nb' = Neighbours(j, Rects)
  /\ stage' = "route" /\ re' = 1
  /\ UNCHANGED <<c, dvars, svars>>
NextEdge == stage = "route" /\ re < Len(edges) /\ re' = re + 1 /\ UNCHANGED <<c, stage, J, nb, dvars, svars>>
CanDraw == SameShape /\ Reached("render") /\ O.pic.wf /\ AllRouted
StartPicture ==
  /\ stage = "place" /\ Goal = "picture" /\ CanDraw
  /\ stage' = "emit" /\ UNCHANGED <<c, re, J, nb, dvars, svars>>
Draw ==
  /\ stage = "emit"
  /\ SvgNext([i \in 1..Len(boxes) |-> BoxStyle(boxes[i])], O.geo, [i \in 1..Len(O.routes) |-> O.routes[i].pts])
  /\ UNCHANGED <<c, stage, re, J, nb, dvars>>
Next == (Resolve \/ Placed \/ Channels \/ NextEdge \/ StartPicture \/ Draw) /\ UNCHANGED lvars
Spec == Init /\ [][Next]_<<vars, lvars>>

-----------------------------------------------------------------------------
\* C05: every stage ends
C05 == O.panic = ""

\* C07
RowHolds(row, o) ==
  /\ o.kids = 0 /\ o.title.text = row.n
  /\ IF row.t = "" THEN o.sub = <<>> ELSE (Len(o.sub) = 1 /\ o.sub[1].text = Cp[row.t])
  /\ IF row.k = "" THEN o.badge = <<>> ELSE (Len(o.badge) = 1 /\ o.badge[1].text = Cp[row.k])
C07 ==
  dphase = "resolved" =>
    /\ Reached("resolve")
    /\ SameShape
    /\ \A i \in 1..Len(boxes) :
         /\ O.content.boxes[i].kind = "record"
         /\ \A j \in 1..Len(boxes[i]) : RowHolds(boxes[i][j], O.content.boxes[i].rows[j])
    /\ \A i \in 1..Len(edges) : O.content.edges[i].ga = edges[i].a /\ O.content.edges[i].gb = edges[i].b

AtPlace == stage = "place"
Whole == Reached("place") /\ \A i \in 1..Len(O.geo) : O.geo[i].rect # <<>>
C08 == AtPlace =>
  /\ Whole /\ Len(O.geo) = Len(O.content.boxes)
  /\ GridHolds(O.geo)
  /\ O.vb # <<>> /\ ViewHolds(O.geo, O.vb)
C09 == AtPlace =>
  /\ Whole
  /\ \A i \in 1..Len(O.geo) :
       /\ \A j \in 1..Len(O.geo[i].rows) : O.geo[i].rows[j].rect # <<>>
       /\ Len(O.geo[i].rows) = Len(O.content.boxes[i].rows)
       /\ TilesHold(O.geo[i])
C10 == AtPlace => Reached("ports") /\ Whole /\ \A i \in 1..Len(O.geo) : PortsHold(O.geo[i])

\* what the routes are judged on: the document has the shape the code says it has
RouteEnds(i) == <<NodeOf(O.content.edges[i].a).ports, NodeOf(O.content.edges[i].b).ports>>
C11 == AtPlace =>
  /\ Reached("route") /\ Len(O.routes) = Len(O.content.edges)
  /\ \A i \in 1..Len(O.routes) :
       /\ O.routes[i].some /\ Len(O.routes[i].pts) >= 2
       /\ Legal(Points(i), RouteEnds(i)[1], RouteEnds(i)[2])
C12 == AtPlace =>
  /\ Reached("route")
  /\ \A i \in 1..Len(O.routes) : O.routes[i].some => (Clear(Points(i), Rects) /\ InView(Points(i), O.vb))
C13 ==
  /\ AtPlace => Reached("route")
  /\ stage = "route" =>
       LET best == Shortest(Range(NodeOf(edges[re].a).ports), Range(NodeOf(edges[re].b).ports), J, nb, Rects)
       IN /\ O.routes[re].some
          /\ best < Infinite => ShortEnough(Points(re), best, J)

\* C14 C15 C16
Rendered == AtPlace => Reached("render") /\ O.pic.wf
Els == O.pic.els
Own == sk <= Len(Els) - 3 * Len(O.routes)
C14 ==
  /\ Rendered
  /\ stage = "emit" =>
       /\ O.pic.view = O.shown
       /\ (sk > 0 /\ se = 0) => (Own /\ IsShape(Els[sk], shape))
       /\ sphase = "drawn" => sk = Len(Els)
C15 ==
  /\ Rendered
  /\ stage = "emit" =>
       \* counted from the end, so that only the edges are judged
       LET k == Len(Els) - 3 * Len(O.routes) + 3 * (se - 1) + (CASE sphase = "start" -> 1 [] sphase = "end" -> 2 [] OTHER -> 3)
       IN /\ se > 0 => (k >= 1 /\ k <= Len(Els) /\ IsShape(Els[k], shape))
          /\ sphase = "start" => Drawn(Els[k].path, Points(se))
          /\ sphase = "drawn" => \A i \in 1..(Len(Els) - 3 * Len(O.routes)) : Els[i].t # "path"
\* C16: O.peer is the picture of the same module with plain names
NameHolds == (stage = "emit" /\ shape.t = "text" /\ se = 0) => (sk <= Len(Els) /\ Els[sk].t = "text" /\ Shown(Els[sk].text) = shape.text)
C16 ==
  /\ AtPlace =>
       /\ Reached("render") /\ O.pic.wf
       /\ O.peer.wf
       /\ Len(Els) = Len(O.peer.els)
       /\ \A i \in 1..Len(Els) :
            /\ Els[i].t = O.peer.els[i].t /\ Els[i].d = O.peer.els[i].d
            /\ Els[i].n = O.peer.els[i].n /\ Els[i].s = O.peer.els[i].s
            /\ Els[i].path = O.peer.els[i].path /\ Els[i].tail = O.peer.els[i].tail
            /\ Els[i].t # "text" => Els[i].text = O.peer.els[i].text
  /\ NameHolds

-----------------------------------------------------------------------------
\* C23: the overlay
AddedFrom == Len(Els)
Overlaid == O.over.els
Added == {Overlaid[i] : i \in (AddedFrom + 1)..Len(Overlaid)}
CountAt(pt) == Cardinality({i \in (AddedFrom + 1)..Len(Overlaid) :
                 Overlaid[i].t = "circle" /\ Overlaid[i].n.cx = pt[1] /\ Overlaid[i].n.cy = pt[2]})
AllPoints == UNION {{<<i, k>> : k \in 1..Len(Points(i))} : i \in 1..Len(O.routes)}
Wanted(pt) == Cardinality({k \in 1..Len(O.graph.nodes) : O.graph.nodes[k] = pt})
              + Cardinality({x \in AllPoints : Points(x[1])[x[2]] = pt})
C23 == AtPlace =>
  /\ O.panic = "" /\ O.pic.wf /\ O.over.wf
  /\ O.over.view = O.pic.view
  /\ Len(Overlaid) >= Len(Els)
  /\ \A i \in 1..Len(Els) : Overlaid[i] = Els[i]
  /\ \A i \in 1..Len(O.graph.edges) :
       LET e == O.graph.edges[i] IN
       \E s \in Added : s.t = "line" /\ {<<s.n.x1, s.n.y1>>, <<s.n.x2, s.n.y2>>} = {e[1], e[2]}
  /\ \A i \in 1..Len(O.graph.nodes) : CountAt(O.graph.nodes[i]) >= Wanted(O.graph.nodes[i])
  /\ \A x \in AllPoints : CountAt(Points(x[1])[x[2]]) >= Wanted(Points(x[1])[x[2]])
  /\ \A i \in 1..Len(O.ids) : \E s \in Added : s.t = "text" /\ Shown(s.text) = O.ids[i]

\* C26: the route graph
Ch == O.channels
\* the node of a connection point
Standing(k, p) == k \in 1..Len(Ch.nodes) /\ Ch.nodes[k] = At(p) /\ Ch.sides[k] = p.d
Stands(ks, ps) == Len(ks) = Len(ps) /\ \A i \in 1..Len(ps) : Standing(ks[i], ps[i])
Locations == {Ch.nodes[i] : i \in 1..Len(Ch.nodes)}
LinkEnds == {{Ch.nodes[Ch.links[k][1]], Ch.nodes[Ch.links[k][2]]} : k \in 1..Len(Ch.links)}
\* every connection point in the graph is of an end
NoStrangers == \A k \in 1..Len(Ch.nodes) : Ch.sides[k] # "" => \E i \in 1..Len(Ch.ends) : k \in Range(Ch.ends[i][1]) \cup Range(Ch.ends[i][2])
RECURSIVE Along(_, _)
\* a piece consists of links
Along(p, q) ==
  \/ {p, q} \in LinkEnds
  \/ \E m \in Locations : m # p /\ m # q /\ {p, m} \in LinkEnds /\ Common(p, q, <<m[1], m[2], 0, 0>>) # <<>> /\ Along(m, q)
C26 == AtPlace =>
  /\ Reached("route") /\ Whole
  /\ GraphHolds(Ch.nodes, Ch.sides, Ch.links, Rects)
  /\ \A i \in 1..Len(Ch.ends) :
       Stands(Ch.ends[i][1], RouteEnds(i)[1]) /\ Stands(Ch.ends[i][2], RouteEnds(i)[2])
  /\ Len(Ch.ends) = Len(O.content.edges)
  /\ NoStrangers
  /\ \A i \in 1..Len(O.routes) : \A k \in 1..(Len(Points(i)) - 1) : Along(Points(i)[k], Points(i)[k + 1])

\* C17: every process gave the same places, points, routes and picture
C17 == \A i \in 2..Len(O.runs) : O.runs[i] = O.runs[1]
=============================================================================
