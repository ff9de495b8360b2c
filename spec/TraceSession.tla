------------------------------ MODULE TraceSession ------------------------------
(* Recorded histories.  Every line is a case of several histories; the memo spans
   all of them.                                                                  *)
EXTENDS SeirenSession, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  c, h, k,  \* case, history, step
  docs, lay,
  memo      \* <<contents, what, value>>: fresh values seen
vars == <<c, h, k, docs, lay, memo>>
H == Trace[c].hist[h]
S == H.steps[k]   \* the step just taken
NStep == Len(H.steps)

Start(i, j) == LET ds == Trace[i].hist[j].docs IN
  [x \in 1..Len(ds) |-> [rows |-> ds[x].boxes, edges |-> ds[x].edges]]
Init == \E i \in 1..Len(Trace) :
  /\ c = i /\ h = 1 /\ k = 0 /\ memo = {}
  /\ docs = Start(i, 1) /\ lay = [x \in 1..Len(Start(i, 1)) |-> NoLayout(Start(i, 1)[x])]

\* which paths there are after a step is read from the record
PathsSeen(s, x) == [e \in 1..Len(s.routes) |-> IF s.routes[e].some THEN x ELSE None]
After(s, i) ==
  CASE s.op = "addbox" -> <<AddBox(docs[i], s.arg[1]), Edited(lay[i], AddBox(docs[i], s.arg[1]))>>
    [] s.op = "addrow" -> <<AddRow(docs[i], s.arg[1]), Edited(lay[i], AddRow(docs[i], s.arg[1]))>>
    [] s.op = "addedge" -> <<AddEdge(docs[i], s.arg[1], s.arg[2]), EdgeAdded(lay[i], AddEdge(docs[i], s.arg[1], s.arg[2]))>>
    [] s.op = "put" -> <<docs[i], Put(lay[i], s.arg[1], s.arg[2])>>
    [] s.op = "place" -> <<docs[i], Placing(lay[i])>>
    [] s.op = "ports" -> <<docs[i], Porting(lay[i])>>
    [] s.op = "route" -> <<docs[i], [lay[i] EXCEPT !.paths =
                             PathsSeen(s, IF IsFresh(lay[i].rects) /\ IsFresh(lay[i].ports) THEN Fresh ELSE Stale)]>>
    [] s.op = "render" -> <<docs[i], lay[i]>>

\* the record without names, as values to compare
Places(s) == [i \in 1..Len(s.geo) |-> <<s.geo[i].rect, [j \in 1..Len(s.geo[i].rows) |-> s.geo[i].rows[j].rect]>>]
PortsSeen(s) == [i \in 1..Len(s.geo) |-> <<s.geo[i].ports, [j \in 1..Len(s.geo[i].rows) |-> s.geo[i].rows[j].ports]>>]
RoutesSeen(s) == [e \in 1..Len(s.routes) |-> s.routes[e].pts]
\* places do not depend on edges
Rows(d) == [rows |-> d.rows, edges |-> <<>>]
Seen(s, d, l) ==
  (IF IsFresh(l.rects) THEN {<<Rows(d), "places", Places(s)>>} ELSE {})
  \cup (IF s.op = "place" THEN {<<Rows(d), "view", s.vb>>} ELSE {})
  \cup (IF IsFresh(l.rects) /\ IsFresh(l.ports) THEN {<<Rows(d), "ports", PortsSeen(s)>>} ELSE {})
  \cup (IF AllFresh(l) THEN {<<d, "routes", RoutesSeen(s)>>} ELSE {})
  \cup (IF s.op = "render" /\ AllFresh(l) /\ s.vb # <<>> THEN {<<d, "picture", <<s.res, s.pic>>>>} ELSE {})

StepOn ==
  /\ k < NStep
  /\ LET s == H.steps[k + 1]
         a == After(s, s.d)
     IN /\ docs' = [docs EXCEPT ![s.d] = a[1]]
        /\ lay' = [lay EXCEPT ![s.d] = a[2]]
        /\ memo' = IF s.panic = "" THEN memo \cup Seen(s, a[1], a[2]) ELSE memo
  /\ k' = k + 1 /\ UNCHANGED <<c, h>>
NextHistory ==
  /\ k = NStep /\ h < Len(Trace[c].hist)
  /\ h' = h + 1 /\ k' = 0
  /\ docs' = Start(c, h + 1) /\ lay' = [x \in 1..Len(Start(c, h + 1)) |-> NoLayout(Start(c, h + 1)[x])]
  /\ UNCHANGED <<c, memo>>
Next == StepOn \/ NextHistory
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Now == k > 0
Unplaced(s) == {<<i>> : i \in {x \in 1..Len(s.geo) : s.geo[x].rect = <<>>}}
               \cup UNION {{<<i, j>> : j \in {x \in 1..Len(s.geo[i].rows) : s.geo[i].rows[x].rect = <<>>}} : i \in 1..Len(s.geo)}
Unrouted(s, d) == {d.edges[e][1] : e \in {x \in 1..Len(s.routes) : ~s.routes[x].some}}

\* where nodes were placed by hand, over one another or away from their points, a path may turn back;
\* drawing one that does is not judged
TurnsBack(s) == \E e \in 1..Len(s.routes) : \E i \in 1..(Len(s.routes[e].pts) - 2) :
  LET p == s.routes[e].pts[i] q == s.routes[e].pts[i + 1] r == s.routes[e].pts[i + 2] IN
  \/ p[1] = q[1] /\ q[1] = r[1] /\ ((p[2] < q[2] /\ r[2] < q[2]) \/ (p[2] > q[2] /\ r[2] > q[2]))
  \/ p[2] = q[2] /\ q[2] = r[2] /\ ((p[1] < q[1] /\ r[1] < q[1]) \/ (p[1] > q[1] /\ r[1] > q[1]))
ByHand(s) == \E m \in 1..k : H.steps[m].op = "put" /\ H.steps[m].d = s.d
Open(s) == s.op = "render" /\ s.panic # "" /\ ByHand(s) /\ TurnsBack(s)

C18 == (Now /\ ~Open(S)) =>
  /\ S.panic = ""
  /\ S.op = "render" =>
       LET bad == Unplaced(S) \cup Unrouted(S, docs[S.d])
       IN IF bad = {} THEN S.res = "ok" /\ S.len > 0
          ELSE S.res = "layout" /\ S.len = 0 /\ S.who \in bad
  \* placing lays out everything there is
  /\ S.op = "place" => Unplaced(S) = {}
  /\ (S.op = "route" /\ IsFresh(lay[S.d].rects) /\ IsFresh(lay[S.d].ports)) => Unrouted(S, docs[S.d]) = {}

\* the same contents, the same result
C17 == (Now /\ ~Open(S)) =>
  /\ S.panic = ""
  /\ \A x \in Seen(S, docs[S.d], lay[S.d]) : \A y \in memo : (x[1] = y[1] /\ x[2] = y[2]) => x[3] = y[3]
  \* rendering and editing move nothing
  /\ (S.op = "render" /\ k > 1) =>
       \A m \in {y \in 1..(k - 1) : H.steps[y].d = S.d /\ \A z \in (y + 1)..(k - 1) : H.steps[z].d # S.d} :
         Places(H.steps[m]) = Places(S) /\ PortsSeen(H.steps[m]) = PortsSeen(S)
         /\ RoutesSeen(H.steps[m]) = RoutesSeen(S)
=============================================================================
