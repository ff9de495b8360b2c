------------------------------- MODULE TracePorts -------------------------------
(* Connection points of documents placed by hand: some boxes and rows have no
   place, any size, any place; boxes and rows moved after points were placed.
     geo    after placing the points (any number of times)
     again  after moving boxes and rows, and placing the points again          *)
EXTENDS SeirenLayout, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
O == Trace[c]
Init == (\E i \in 1..Len(Trace) : c = i) /\ heights = <<>> /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0
Spec == Init /\ [][FALSE]_<<c, lvars>>

RowPorts(b, j) ==
  IF b.rows[j].rect = <<>> THEN b.rows[j].ports = <<>>
  ELSE SamePorts(b.rows[j].ports, Sides(b.rows[j].rect, FreeSides(j, Len(b.rows))))
BoxPorts(b) ==
  IF b.rect = <<>> THEN b.ports = <<>>
  ELSE SamePorts(b.ports, Sides(b.rect, <<"U", "R", "D", "L">>)) /\ \A j \in 1..Len(b.rows) : RowPorts(b, j)
C10 ==
  /\ O.panic = ""
  /\ Len(O.geo) = O.n /\ Len(O.again) = O.n
  /\ \A i \in 1..Len(O.geo) : BoxPorts(O.geo[i])
  /\ \A i \in 1..Len(O.again) : BoxPorts(O.again[i])
=============================================================================
