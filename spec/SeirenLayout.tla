----------------------------- MODULE SeirenLayout -----------------------------
(* Placing boxes, rows and connection points.  Lengths are integers, in eighths
   of a unit.  A rectangle is <<x, y, w, h>> (y grows downwards); a connection
   point is [x, y, d] with d in {"U", "R", "D", "L"}.

   The first part is the state machine: boxes are placed one after the other,
   then the picture is closed, then every box gets its connection points.
   The second part states what has to hold of any placement, however it came
   about; it is applied to the machine and to recorded placements alike.       *)
EXTENDS Integers, Sequences, FiniteSets

Unit == 8
Margin == 50 * Unit
Line == 35 * Unit
Width == 300 * Unit
Gap == 80 * Unit
Cols == 3

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
X1(r) == r[1]
Y1(r) == r[2]
X2(r) == r[1] + r[3]
Y2(r) == r[2] + r[4]
MidX(r) == r[1] + r[3] \div 2
MidY(r) == r[2] + r[4] \div 2

-----------------------------------------------------------------------------
VARIABLES
  heights, \* the document: number of rows of every box
  base,    \* upper edge of the current grid row
  tall,    \* height of its tallest box
  geo,     \* placed boxes: [rect, ports, rows : Seq([rect, ports])]
  view,    \* <<>> or the view box
  ported   \* number of boxes with connection points
lvars == <<heights, base, tall, geo, view, ported>>

LayoutInit(hs) ==
  /\ heights = hs /\ base = Margin /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0

Column(i) == (i - 1) % Cols
GridRow(i) == (i - 1) \div Cols

PlaceBox ==
  /\ view = <<>> /\ Len(geo) < Len(heights)
  /\ LET i == Len(geo) + 1
         fresh == i > 1 /\ Column(i) = 0
         b == IF fresh THEN base + tall + Gap ELSE base
         x == Margin + Column(i) * (Width + Gap)
         n == heights[i]
     IN /\ base' = b
        /\ tall' = Max(IF fresh THEN 0 ELSE tall, n * Line)
        /\ geo' = Append(geo,
             [rect |-> <<x, b, Width, n * Line>>, ports |-> <<>>,
              rows |-> [j \in 1..n |-> [rect |-> <<x, b + (j - 1) * Line, Width, Line>>, ports |-> <<>>]]])
  /\ UNCHANGED <<heights, view, ported>>

Close ==
  /\ view = <<>> /\ Len(geo) = Len(heights)
  /\ view' = <<0, 0, 2 * Margin + Cols * Width + (Cols - 1) * Gap, base + tall + Margin>>
  /\ UNCHANGED <<heights, base, tall, geo, ported>>

Side(r, d) == CASE d = "U" -> [x |-> MidX(r), y |-> Y1(r), d |-> "U"]
                [] d = "R" -> [x |-> X2(r), y |-> MidY(r), d |-> "R"]
                [] d = "D" -> [x |-> MidX(r), y |-> Y2(r), d |-> "D"]
                [] d = "L" -> [x |-> X1(r), y |-> MidY(r), d |-> "L"]
Sides(r, ds) == [i \in 1..Len(ds) |-> Side(r, ds[i])]
FreeSides(j, n) == (IF j = 1 THEN <<"U">> ELSE <<>>) \o <<"R", "L">> \o (IF j = n THEN <<"D">> ELSE <<>>)

PlacePorts ==
  /\ view # <<>> /\ ported < Len(geo)
  /\ LET b == geo[ported + 1] IN
     geo' = [geo EXCEPT ![ported + 1] =
       [rect |-> b.rect, ports |-> Sides(b.rect, <<"U", "R", "D", "L">>),
        rows |-> [j \in 1..Len(b.rows) |->
                   [rect |-> b.rows[j].rect, ports |-> Sides(b.rows[j].rect, FreeSides(j, Len(b.rows)))]]]]
  /\ ported' = ported + 1
  /\ UNCHANGED <<heights, base, tall, view>>

LayoutDone == view # <<>> /\ ported = Len(geo)
LayoutNext == PlaceBox \/ Close \/ PlacePorts

-----------------------------------------------------------------------------
(* What holds of every placement g with view box v *)
Disjoint(r, s) == X2(r) <= X1(s) \/ X2(s) <= X1(r) \/ Y2(r) <= Y1(s) \/ Y2(s) <= Y1(r)
Inside(r, s) == X1(s) <= X1(r) /\ Y1(s) <= Y1(r) /\ X2(r) <= X2(s) /\ Y2(r) <= Y2(s)
Widened(r, d) == <<r[1] - d, r[2] - d, r[3] + 2 * d, r[4] + 2 * d>>

RECURSIVE Bottom(_, _, _)
\* lowest edge of the boxes i..k
Bottom(g, i, k) == IF i > k THEN 0 ELSE Max(Y2(g[i].rect), Bottom(g, i + 1, k))

\* C08
GridHolds(g) ==
  \A i \in 1..Len(g) :
    LET r == g[i].rect IN
    /\ r[3] > 0
    /\ i > Cols => (X1(r) = X1(g[i - Cols].rect) /\ r[3] = g[i - Cols].rect[3])
    /\ Column(i) > 0 => (Y1(r) = Y1(g[i - 1].rect) /\ X1(r) = X2(g[i - 1].rect) + Gap)
    /\ (Column(i) = 0 /\ i > 1) => Y1(r) = Bottom(g, i - Cols, i - 1) + Gap
    /\ \A j \in 1..(i - 1) : Disjoint(r, g[j].rect)
ViewHolds(g, v) ==
  /\ v[1] = 0 /\ v[2] = 0 /\ v[3] > 0 /\ v[4] > 0
  /\ \A i \in 1..Len(g) : Inside(Widened(g[i].rect, Margin), v)

\* C09
TilesHold(b) ==
  LET n == Len(b.rows) IN
  /\ \A j \in 1..n :
       LET r == b.rows[j].rect IN
       /\ r[1] = b.rect[1] /\ r[3] = b.rect[3]
       /\ r[4] > 0 /\ r[4] = b.rows[1].rect[4]
       /\ r[2] = IF j = 1 THEN Y1(b.rect) ELSE Y2(b.rows[j - 1].rect)
  /\ n > 0 => Y2(b.rows[n].rect) = Y2(b.rect)
  /\ n = 0 => b.rect[4] = 0

\* C10
Range(s) == {s[i] : i \in 1..Len(s)}
SamePorts(ps, qs) == Len(ps) = Len(qs) /\ Range(ps) = Range(qs)
PortsHold(b) ==
  /\ SamePorts(b.ports, Sides(b.rect, <<"U", "R", "D", "L">>))
  /\ \A j \in 1..Len(b.rows) :
       SamePorts(b.rows[j].ports, Sides(b.rows[j].rect, FreeSides(j, Len(b.rows))))

\* the point one step before a connection point
Step(p, n) == CASE p.d = "U" -> <<p.x, p.y - n>>
                [] p.d = "D" -> <<p.x, p.y + n>>
                [] p.d = "L" -> <<p.x - n, p.y>>
                [] p.d = "R" -> <<p.x + n, p.y>>
InClosed(pt, r) == X1(r) <= pt[1] /\ pt[1] <= X2(r) /\ Y1(r) <= pt[2] /\ pt[2] <= Y2(r)
FaceOutwards(b) ==
  \A p \in Range(b.ports) \cup UNION {Range(b.rows[j].ports) : j \in 1..Len(b.rows)} :
    ~InClosed(Step(p, 1), b.rect)
=============================================================================
