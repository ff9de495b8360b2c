-------------------------------- MODULE MCGeom --------------------------------
(* On a small grid the two accounts of intersection agree, for all rectangles and
   all lines; the lines are replayed against the code.                          *)
EXTENDS SeirenGeom, TLC
CONSTANT N
VARIABLES r, a, b
Init == /\ \E x1 \in 1..(N - 1) : \E x2 \in x1..(N - 1) : \E y1 \in 1..(N - 1) : \E y2 \in y1..(N - 1) :
             r = <<x1, y1, x2 - x1, y2 - y1>>
        /\ a = <<0, 0>> /\ b = <<0, 0>>
\* the ends of the line move over the grid
Step(p, q) == \E i \in {1, 2} : q = [p EXCEPT ![i] = @ + 1] /\ q[i] <= N
Next == \/ Step(a, a') /\ UNCHANGED <<r, b>>
        \/ Step(b, b') /\ UNCHANGED <<r, a>>
Spec == Init /\ [][Next]_<<r, a, b>>
Agree == Meets(r, a, b) <=> MeetsF(r, a, b)
Symmetric == Hits(r, a, b) <=> Hits(r, b, a)
\* every point of the grid between the ends of the part lies in the rectangle
Convex == (Contains(r, a) /\ Contains(r, b)) => Meets(r, a, b)
InsetBack == \A d \in 0..1 : (r[3] >= 2 * d /\ r[4] >= 2 * d) => Inset(Inset(r, d, d), -d, -d) = r
=============================================================================
