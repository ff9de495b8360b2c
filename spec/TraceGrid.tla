------------------------------- MODULE TraceGrid -------------------------------
(* Documents put together by hand, box after box, laid out once or between the
   additions; boxes with any number of rows, none included.
     heights  rows of every box      geo, vb  after the last layout              *)
EXTENDS SeirenLayout, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
O == Trace[c]
Init == (\E i \in 1..Len(Trace) : c = i) /\ heights = O.heights /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0
Spec == Init /\ [][FALSE]_<<c, lvars>>

Whole == O.panic = "" /\ Len(O.geo) = Len(heights) /\ \A i \in 1..Len(O.geo) : O.geo[i].rect # <<>>
C08 == Whole /\ GridHolds(O.geo) /\ O.vb # <<>> /\ ViewHolds(O.geo, O.vb)
C09 ==
  /\ Whole
  /\ \A i \in 1..Len(heights) :
       /\ Len(O.geo[i].rows) = heights[i]
       /\ \A j \in 1..heights[i] : O.geo[i].rows[j].rect # <<>>
       /\ TilesHold(O.geo[i])
C10 == Whole /\ \A i \in 1..Len(heights) : Len(O.geo[i].rows) = heights[i] /\ PortsHold(O.geo[i])
=============================================================================
