------------------------------- MODULE TraceGeom -------------------------------
(* Recorded results of the rectangle operations; points of intersections come in
   1/128 of the unit of the coordinates.                                        *)
EXTENDS SeirenGeom, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
O == Trace[c]
Init == \E i \in 1..Len(Trace) : c = i /\ k = 1
Next == k < Len(O.ops) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, k>>
Tolerance == 2
Near(f, a, d, v) ==  \* v is 128 * (a + f*d), nearly
  LET e == 128 * (a * f[2] + f[1] * d) - v * f[2] IN e <= Tolerance * f[2] /\ -e <= Tolerance * f[2]
IsAt(f, a, b, x, y) == Near(f, a[1], b[1] - a[1], x) /\ Near(f, a[2], b[2] - a[2], y)
OpHolds(o) ==
  /\ o.panic = ""
  /\ CASE o.k = "hit" ->
            LET a == <<o.arg[1], o.arg[2]>>
                b == <<o.arg[3], o.arg[4]>>
            IN /\ o.res.hit <=> Hits(O.r, a, b)
               /\ (o.res.seg # <<>>) <=> Hits(O.r, a, b)
               /\ Hits(O.r, a, b) =>
                    LET f == From(O.r, a, b)
                        t == To(O.r, a, b)
                        s == o.res.seg
                    IN \/ IsAt(f, a, b, s[1], s[2]) /\ IsAt(t, a, b, s[3], s[4])
                       \/ IsAt(t, a, b, s[1], s[2]) /\ IsAt(f, a, b, s[3], s[4])
       [] o.k = "in" -> o.res.in <=> Contains(O.r, o.arg)
       [] o.k = "inset" -> o.res.rect = Inset(O.r, o.arg[1], o.arg[2])
Size(z) == IF z < 0 THEN -z ELSE z
PointHolds(o) ==
  /\ o.panic = ""
  /\ CASE o.k = "dist" ->   \* in 1/128 of the unit; rounded by at most one
            LET want == 128 * 128 * DistSquare(<<o.arg[1], o.arg[2]>>, <<o.arg[3], o.arg[4]>>)
                d == o.res.dist
            IN /\ d >= 0 /\ d = o.res.back
               /\ (IF d = 0 THEN 0 ELSE Square(d - 1)) <= want /\ want <= Square(d + 1)
               /\ want = 0 => d = 0
       [] o.k = "far" ->   \* in 1/256 beyond the longer side: (m + e)^2 = m^2 + n^2, e rounded by at most four
            LET dx == Size(o.arg[1] - o.arg[3])
                dy == Size(o.arg[2] - o.arg[4])
                m == IF dx < dy THEN dy ELSE dx
                n == IF dx < dy THEN dx ELSE dy
                e == o.res.more
            IN /\ e = o.res.back
               /\ Size(e * 2 * m + (e * e) \div 256 - 256 * Square(n)) <= 8 * m + Size(e) \div 16 + 1
       [] o.k = "dir" -> o.res.dir = Toward(<<o.arg[1], o.arg[2]>>, <<o.arg[3], o.arg[4]>>)
       [] o.k = "path" ->
            LET f == NewPath(o.arg[1], o.arg[2]) \o SubSeq(o.arg, 3, Len(o.arg))
            IN /\ o.res.flat = f /\ o.res.n = Commands(f, 1)
               /\ o.res.start = <<o.arg[1], o.arg[2]>> /\ o.res.end = PathEnd(f)
C29 == PointHolds(O.ops[k])
\* the sides and the middle, in 1/128 of the unit
SidesHold ==
  LET x == O.r[1] y == O.r[2] w == O.r[3] h == O.r[4]
      mx == 64 * (2 * x + w) my == 64 * (2 * y + h)
  IN O.sides = <<128 * x, mx, 128 * (x + w), 128 * y, my, 128 * (y + h), 128 * w, 128 * h, mx, my,
                 128 * x, 128 * y, 128 * w, 128 * h>>
C22 == SidesHold /\ OpHolds(O.ops[k])
=============================================================================
