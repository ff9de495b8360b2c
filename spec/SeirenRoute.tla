------------------------------ MODULE SeirenRoute ------------------------------
(* Routes.  What has to hold of a route, and the channels a route may use with
   the length of the shortest one.  Points are <<x, y>>; rs are the boxes.      *)
EXTENDS SeirenLayout

Abs(a) == IF a < 0 THEN -a ELSE a
Dir(p, q) == CASE p[1] = q[1] /\ q[2] < p[2] -> "U"
               [] p[1] = q[1] /\ q[2] > p[2] -> "D"
               [] p[2] = q[2] /\ q[1] < p[1] -> "L"
               [] p[2] = q[2] /\ q[1] > p[1] -> "R"
               [] OTHER -> "none"
Opposite(d) == CASE d = "U" -> "D" [] d = "D" -> "U" [] d = "L" -> "R" [] d = "R" -> "L" [] OTHER -> "none"
Dist(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
At(p) == <<p.x, p.y>>

RECURSIVE Length(_, _)
Length(pts, i) == IF i >= Len(pts) THEN 0 ELSE Dist(pts[i], pts[i + 1]) + Length(pts, i + 1)

\* C11: sp, tp are the connection points of the two ends
Orthogonal(pts) ==
  /\ Len(pts) >= 2
  /\ \A i \in 1..(Len(pts) - 1) : Dir(pts[i], pts[i + 1]) # "none"
  /\ \A i \in 1..(Len(pts) - 2) : Dir(pts[i + 1], pts[i + 2]) # Opposite(Dir(pts[i], pts[i + 1]))
Leaves(pts, sp) == \E p \in Range(sp) : At(p) = pts[1] /\ Dir(pts[1], pts[2]) = p.d
Arrives(pts, tp) ==
  \E p \in Range(tp) : At(p) = pts[Len(pts)] /\ Dir(pts[Len(pts) - 1], pts[Len(pts)]) = Opposite(p.d)
Legal(pts, sp, tp) == Orthogonal(pts) /\ Leaves(pts, sp) /\ Arrives(pts, tp)

\* C12: common part of the piece p-q and the closed box r: <<>> or <<from, to>>
Common(p, q, r) ==
  LET a == <<Max(Min(p[1], q[1]), X1(r)), Max(Min(p[2], q[2]), Y1(r))>>
      b == <<Min(Max(p[1], q[1]), X2(r)), Min(Max(p[2], q[2]), Y2(r))>>
  IN IF a[1] <= b[1] /\ a[2] <= b[2] THEN <<a, b>> ELSE <<>>
Clear(pts, rs) ==
  \A i \in 1..(Len(pts) - 1) : \A r \in rs :
    LET c == Common(pts[i], pts[i + 1], r)
        ends == (IF i = 1 THEN {pts[1]} ELSE {}) \cup (IF i = Len(pts) - 1 THEN {pts[Len(pts)]} ELSE {})
    IN c # <<>> => (c[1] = c[2] /\ c[1] \in ends)
InView(pts, v) == \A i \in 1..Len(pts) : InClosed(pts[i], v)

-----------------------------------------------------------------------------
(* The channels *)
Half == Gap \div 2
Corners(rs) == UNION {LET w == Widened(r, Half) IN
                      {<<X1(w), Y1(w)>>, <<X2(w), Y1(w)>>, <<X2(w), Y2(w)>>, <<X1(w), Y2(w)>>} : r \in rs}
\* is a point properly inside a widened box (and therefore in no channel)?
Blocked(pt, rs) == \E r \in rs : LET w == Widened(r, Half) IN
                     X1(w) < pt[1] /\ pt[1] < X2(w) /\ Y1(w) < pt[2] /\ pt[2] < Y2(w)
\* the line that leaves a connection point ends at the next widened box
OnLine(p, pt, rs) ==
  /\ CASE p.d = "L" -> pt[2] = p.y /\ pt[1] <= p.x
       [] p.d = "R" -> pt[2] = p.y /\ pt[1] >= p.x
       [] p.d = "U" -> pt[1] = p.x /\ pt[2] <= p.y
       [] p.d = "D" -> pt[1] = p.x /\ pt[2] >= p.y
  /\ ~\E r \in rs : LET w == Widened(r, Half) IN
       CASE p.d = "L" -> X2(w) < p.x /\ Y1(w) <= p.y /\ p.y <= Y2(w) /\ pt[1] < X2(w)
         [] p.d = "R" -> X1(w) > p.x /\ Y1(w) <= p.y /\ p.y <= Y2(w) /\ pt[1] > X1(w)
         [] p.d = "U" -> Y2(w) < p.y /\ X1(w) <= p.x /\ p.x <= X2(w) /\ pt[2] < Y2(w)
         [] p.d = "D" -> Y1(w) > p.y /\ X1(w) <= p.x /\ p.x <= X2(w) /\ pt[2] > Y1(w)
Crossings(p, corners, rs) ==
  LET cand == IF p.d \in {"L", "R"} THEN {<<c[1], p.y>> : c \in corners} ELSE {<<p.x, c[2]>> : c \in corners}
  IN {pt \in cand : OnLine(p, pt, rs)}
Junctions(rs, ports) ==
  LET cs == Corners(rs) IN
  {j \in cs \cup UNION {Crossings(p, cs, rs) : p \in ports} : ~Blocked(j, rs)}

\* a straight piece is free if it meets no box
Free(p, q, rs) == \A r \in rs : Common(p, q, r) = <<>>
FreeFrom(p, q, rs) == \A r \in rs : LET c == Common(p, q, r) IN c # <<>> => (c[1] = c[2] /\ c[1] = p)

\* nearest junctions of j in the four directions, as far as the way is free
Nearest(j, J, rs) ==
  LET row == {k \in J : k[2] = j[2] /\ k # j}
      col == {k \in J : k[1] = j[1] /\ k # j}
      near(S) == {k \in S : ~\E m \in S : Dist(j, m) < Dist(j, k) /\ Dir(j, m) = Dir(j, k)}
  IN {k \in near(row) \cup near(col) : Free(j, k, rs)}
Neighbours(J, rs) == [j \in J |-> Nearest(j, J, rs)]

(* C26: a graph of channels, as nodes <<x, y>>, the sides they face ("" for a junction) and links
   between nodes, by number *)
Pair(l) == {l[1], l[2]}
DistinctNodes(ns, ss) == \A i, j \in 1..Len(ns) : (ns[i] = ns[j] /\ ss[i] = ss[j]) => i = j
\* junctions are no closer to a box than the channels are, up to a unit
Roomy(ns, ss, rs) ==
  \A i \in 1..Len(ns) : ss[i] = "" => \A r \in rs : ~InClosed(ns[i], Widened(r, Half - Unit))
Faces(s, d) == s = "" \/ s = d
LinkHolds(p, q, s, t, rs) ==
  /\ Dir(p, q) # "none"
  /\ Faces(s, Dir(p, q)) /\ Faces(t, Dir(q, p))
  \* it meets a box only where it begins or ends at a connection point
  /\ \A r \in rs : LET c == Common(p, q, r) IN
       c # <<>> => (c[1] = c[2] /\ ((s # "" /\ c[1] = p) \/ (t # "" /\ c[1] = q)))
\* junctions with free sight of each other and nothing between are linked
Adjacent(i, j, ns, rs) ==
  /\ Dir(ns[i], ns[j]) # "none" /\ Free(ns[i], ns[j], rs)
  /\ ~\E k \in 1..Len(ns) : k # i /\ k # j /\ Common(ns[i], ns[j], <<ns[k][1], ns[k][2], 0, 0>>) # <<>>
\* a link does not run across a node
Across(p, q, m) ==
  \/ p[1] = q[1] /\ m[1] = p[1] /\ Min(p[2], q[2]) < m[2] /\ m[2] < Max(p[2], q[2])
  \/ p[2] = q[2] /\ m[2] = p[2] /\ Min(p[1], q[1]) < m[1] /\ m[1] < Max(p[1], q[1])
GraphHolds(ns, ss, links, rs) ==
  /\ DistinctNodes(ns, ss) /\ Roomy(ns, ss, rs)
  /\ LET at == {ns[i] : i \in 1..Len(ns)} IN
     \A k \in 1..Len(links) : LET p == ns[links[k][1]]  q == ns[links[k][2]] IN ~\E m \in at : Across(p, q, m)
  /\ \A k \in 1..Len(links) : LinkHolds(ns[links[k][1]], ns[links[k][2]], ss[links[k][1]], ss[links[k][2]], rs)
  /\ Cardinality({Pair(links[k]) : k \in 1..Len(links)}) = Len(links)
  /\ LET ps == {Pair(links[k]) : k \in 1..Len(links)}
         js == {i \in 1..Len(ns) : ss[i] = ""}
     IN \A i \in js : \A j \in js : (i < j /\ Dir(ns[i], ns[j]) # "none" /\ {i, j} \notin ps) => ~Adjacent(i, j, ns, rs)

Infinite == 1000000000
\* length of the first piece from one of the connection points ps to a junction
FirstPiece(ps, J, rs) ==
  [j \in J |->
    LET S == {Dist(At(p), j) : p \in {q \in ps : Dir(At(q), j) = q.d /\ FreeFrom(At(q), j, rs)}}
    IN IF S = {} THEN Infinite ELSE CHOOSE d \in S : \A e \in S : d <= e]
RECURSIVE Relax(_, _, _)
\* d: lengths so far; f: junctions whose length changed in the last round
Relax(d, f, nb) ==
  IF f = {} THEN d
  ELSE LET touched == UNION {nb[j] : j \in f}
           new == [k \in touched |->
                    LET S == {d[j] + Dist(j, k) : j \in nb[k] \cap f} \cup {d[k]}
                    IN CHOOSE x \in S : \A y \in S : x <= y]
           better == {k \in touched : new[k] < d[k]}
       IN Relax([j \in DOMAIN d |-> IF j \in better THEN new[j] ELSE d[j]], better, nb)

\* the shortest line through the channels from one of sp to one of tp
Best(sp, tp, J, nb, rs) ==
  LET from == FirstPiece(sp, J, rs)
      to == FirstPiece(tp, J, rs)
      d == Relax(from, {j \in J : from[j] < Infinite}, nb)
      S == {d[j] + to[j] : j \in {k \in J : d[k] < Infinite /\ to[k] < Infinite}} \cup {Infinite}
  IN CHOOSE x \in S : \A y \in S : x <= y
\* the two connection points must not be in the same place
Shortest(sp, tp, J, nb, rs) ==
  IF {At(p) : p \in sp} \cap {At(p) : p \in tp} = {} THEN Best(sp, tp, J, nb, rs)
  ELSE LET S == {Best({p}, {q \in tp : At(q) # At(p)}, J, nb, rs) : p \in sp}
       IN CHOOSE x \in S : \A y \in S : x <= y

\* C13: pieces are counted between junctions; each may lose up to half a unit by rounding
RECURSIVE Pieces(_, _, _)
Pieces(pts, J, i) ==
  IF i >= Len(pts) THEN 0
  ELSE 1 + Cardinality({j \in J : j # pts[i] /\ j # pts[i + 1] /\ Common(pts[i], pts[i + 1], <<j[1], j[2], 0, 0>>) # <<>>})
         + Pieces(pts, J, i + 1)
ShortEnough(pts, best, J) == Length(pts, 1) <= best + (Unit \div 2) * Pieces(pts, J, 1)
=============================================================================
