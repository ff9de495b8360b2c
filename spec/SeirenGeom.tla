------------------------------- MODULE SeirenGeom ------------------------------
(* Lines and rectangles with whole coordinates, exactly.  A line is a, b; a
   rectangle <<x, y, w, h>>.  Parameters along the line are fractions <<n, d>>, d > 0. *)
EXTENDS Integers, Sequences, FiniteSets
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Right(r) == r[1] + r[3]
Low(r) == r[2] + r[4]

Contains(r, p) == r[1] <= p[1] /\ p[1] <= Right(r) /\ r[2] <= p[2] /\ p[2] <= Low(r)
Within(r, p) == r[1] < p[1] /\ p[1] < Right(r) /\ r[2] < p[2] /\ p[2] < Low(r)

\* a and b lie on different sides of, or on, the lines that separate: the line meets the closed
\* rectangle iff their extents overlap and the corners are not all properly on one side of it
Side(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Corners(r) == {<<r[1], r[2]>>, <<Right(r), r[2]>>, <<Right(r), Low(r)>>, <<r[1], Low(r)>>}
Meets(r, a, b) ==
  /\ Hi(a[1], b[1]) >= r[1] /\ Lo(a[1], b[1]) <= Right(r)
  /\ Hi(a[2], b[2]) >= r[2] /\ Lo(a[2], b[2]) <= Low(r)
  /\ ~(\A q \in Corners(r) : Side(a, b, q) > 0) /\ ~(\A q \in Corners(r) : Side(a, b, q) < 0)
Hits(r, a, b) == Meets(r, a, b) /\ ~(Within(r, a) /\ Within(r, b))

(* the same with fractions: the part of the line in the rectangle is [From, To] *)
Leq(f, g) == f[1] * g[2] <= g[1] * f[2]
MaxF(S) == CHOOSE f \in S : \A g \in S : Leq(g, f)
MinF(S) == CHOOSE f \in S : \A g \in S : Leq(f, g)
Frac(n, d) == IF d > 0 THEN <<n, d>> ELSE <<-n, -d>>
\* coordinate a + t*d within lo..hi, for d # 0
Enter(a, d, lo, hi) == IF d > 0 THEN Frac(lo - a, d) ELSE Frac(hi - a, d)
Leave(a, d, lo, hi) == IF d > 0 THEN Frac(hi - a, d) ELSE Frac(lo - a, d)
From(r, a, b) ==
  LET dx == b[1] - a[1]
      dy == b[2] - a[2]
  IN MaxF({<<0, 1>>} \cup (IF dx # 0 THEN {Enter(a[1], dx, r[1], Right(r))} ELSE {})
                    \cup (IF dy # 0 THEN {Enter(a[2], dy, r[2], Low(r))} ELSE {}))
To(r, a, b) ==
  LET dx == b[1] - a[1]
      dy == b[2] - a[2]
  IN MinF({<<1, 1>>} \cup (IF dx # 0 THEN {Leave(a[1], dx, r[1], Right(r))} ELSE {})
                    \cup (IF dy # 0 THEN {Leave(a[2], dy, r[2], Low(r))} ELSE {}))
MeetsF(r, a, b) ==
  /\ a[1] = b[1] => (r[1] <= a[1] /\ a[1] <= Right(r))
  /\ a[2] = b[2] => (r[2] <= a[2] /\ a[2] <= Low(r))
  /\ Leq(From(r, a, b), To(r, a, b))

\* the side on which q lies of p, both on one level or plumb line
Toward(p, q) == IF p[1] = q[1] THEN (IF q[2] < p[2] THEN "U" ELSE "D") ELSE (IF q[1] < p[1] THEN "L" ELSE "R")
\* squares, so that no roots are needed
Square(x) == x * x
DistSquare(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2])

\* a path as a flat sequence of commands 1 x y (move), 2 x y (line), 3 x y x y (curve); a new path
\* has moved to its start
RECURSIVE Commands(_, _)
Commands(f, i) == IF i > Len(f) THEN 0 ELSE 1 + Commands(f, i + (IF f[i] = 3 THEN 5 ELSE 3))
NewPath(x, y) == <<1, x, y>>
PathEnd(f) == SubSeq(f, Len(f) - 1, Len(f))

Inset(r, dx, dy) == <<r[1] + dx, r[2] + dy, Hi(0, r[3] - 2 * dx), Hi(0, r[4] - 2 * dy)>>
=============================================================================
