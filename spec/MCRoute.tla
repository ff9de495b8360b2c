-------------------------------- MODULE MCRoute --------------------------------
(* A walker leaves a connection point and moves from junction to junction.  All
   its walks, for all small documents and all pairs of ends: a finished walk is a
   legal route clear of the boxes, never shorter than the shortest length, and
   the shortest length is reached by one of them.                              *)
EXTENDS SeirenRoute, TLC, Json
CONSTANTS MaxBoxes, MaxRows, EmitAll

VARIABLES
  src, tgt,  \* the two ends: <<box>> or <<box, row>>
  J, nb, best,
  walk,      \* points so far
  stage      \* "layout", "walking", "arrived"
vars == <<lvars, src, tgt, J, nb, best, walk, stage>>

Refs(hs) == UNION {{<<i>>} \cup {<<i, j>> : j \in 1..hs[i]} : i \in 1..Len(hs)}
PortsOf(r) == IF Len(r) = 1 THEN geo[r[1]].ports ELSE geo[r[1]].rows[r[2]].ports
Rects == {geo[i].rect : i \in 1..Len(geo)}

Init ==
  /\ \E n \in 1..MaxBoxes : \E hs \in [1..n -> 1..MaxRows] :
       /\ LayoutInit(hs)
       /\ src \in Refs(hs) /\ tgt \in Refs(hs)
  /\ J = {} /\ nb = <<>> /\ best = 0 /\ walk = <<>> /\ stage = "layout"

Place == stage = "layout" /\ LayoutNext /\ UNCHANGED <<src, tgt, J, nb, best, walk, stage>>

Start ==
  /\ stage = "layout" /\ LayoutDone
  /\ LET j == Junctions(Rects, Range(PortsOf(src)) \cup Range(PortsOf(tgt)))
         n == Neighbours(j, Rects)
     IN /\ J' = j /\ nb' = n
        /\ best' = Shortest(Range(PortsOf(src)), Range(PortsOf(tgt)), j, n, Rects)
  /\ \E p \in Range(PortsOf(src)) : walk' = <<At(p)>>
  /\ stage' = "walking"
  /\ UNCHANGED <<lvars, src, tgt>>

Here == walk[Len(walk)]
\* a walk longer than necessary is given up
Extend(k) ==
  /\ Length(walk, 1) + Dist(Here, k) < best
  /\ walk' = Append(walk, k)
  /\ UNCHANGED <<lvars, src, tgt, J, nb, best, stage>>
First ==
  /\ stage = "walking" /\ Len(walk) = 1
  /\ \E k \in J :
       /\ \E p \in Range(PortsOf(src)) : At(p) = Here /\ Dir(Here, k) = p.d
       /\ FreeFrom(Here, k, Rects)
       /\ ~\E m \in J : Dir(Here, m) = Dir(Here, k) /\ Dist(Here, m) < Dist(Here, k)
       /\ Extend(k)
Turn ==
  /\ stage = "walking" /\ Len(walk) > 1
  /\ \E k \in nb[Here] : Dir(Here, k) # Opposite(Dir(walk[Len(walk) - 1], Here)) /\ Extend(k)
Arrive ==
  /\ stage = "walking" /\ Len(walk) > 1
  /\ \E p \in Range(PortsOf(tgt)) :
       /\ At(p) # walk[1] /\ Dir(At(p), Here) = p.d /\ FreeFrom(At(p), Here, Rects)
       /\ Dir(Here, At(p)) # Opposite(Dir(walk[Len(walk) - 1], Here))
       /\ Length(walk, 1) + Dist(Here, At(p)) <= best
       /\ walk' = Append(walk, At(p))
  /\ stage' = "arrived"
  /\ UNCHANGED <<lvars, src, tgt, J, nb, best>>
Next == Place \/ Start \/ First \/ Turn \/ Arrive
Spec == Init /\ [][Next]_vars

Reachable == stage # "layout" => best < Infinite
Arrived == stage = "arrived" =>
  /\ Legal(walk, PortsOf(src), PortsOf(tgt)) /\ Clear(walk, Rects) /\ InView(walk, view)
  /\ Length(walk, 1) = best
  /\ ShortEnough(walk, best, J)
Emit == (EmitAll /\ stage = "arrived") => PrintT("GEN" \o ToJson([h |-> heights, a |-> src, b |-> tgt, best |-> best]))
=============================================================================
