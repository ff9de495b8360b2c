------------------------------- MODULE SeirenDoc -------------------------------
(* Module to document: every definition becomes a box with a header row and one
   row per field; relations become edges once every definition is known.
   A node is referred to as <<box>> or <<box, row>>; row 1 is the header.       *)
EXTENDS SeirenResolve

VARIABLES
  mod,     \* the module
  dphase,  \* "declare" -> "relate" -> "resolved"
  ei,      \* entries dealt with
  boxes,   \* sequence of [rows]; a row is [n, t, k], the header has t = ""
  reg,     \* declared paths with the node they denote now
  edges    \* sequence of [a, b]
dvars == <<mod, dphase, ei, boxes, reg, edges>>

DocInit(m) == /\ mod = m /\ dphase = "declare" /\ ei = 0 /\ boxes = <<>> /\ reg = <<>> /\ edges = <<>>

Declare ==
  /\ dphase = "declare" /\ ei < Len(mod.entries)
  /\ LET e == mod.entries[ei + 1] IN
     IF e.k = "def"
     THEN /\ boxes' = Append(boxes, RowsOf(e))
          /\ reg' = reg \o PathsOf(e, Len(boxes) + 1)
     ELSE UNCHANGED <<boxes, reg>>
  /\ ei' = ei + 1
  /\ UNCHANGED <<mod, dphase, edges>>

Declared ==
  /\ dphase = "declare" /\ ei = Len(mod.entries)
  /\ dphase' = "relate" /\ ei' = 0
  /\ UNCHANGED <<mod, boxes, reg, edges>>

Relate ==
  /\ dphase = "relate" /\ ei < Len(mod.entries)
  /\ LET e == mod.entries[ei + 1] IN
     edges' = IF e.k = "rel" /\ Denotes(reg, e.a) /\ Denotes(reg, e.b)
              THEN Append(edges, [a |-> Lookup(reg, e.a, Len(reg)), b |-> Lookup(reg, e.b, Len(reg))])
              ELSE edges
  /\ ei' = ei + 1
  /\ UNCHANGED <<mod, dphase, boxes, reg>>

Related ==
  /\ dphase = "relate" /\ ei = Len(mod.entries)
  /\ dphase' = "resolved"
  /\ UNCHANGED <<mod, ei, boxes, reg, edges>>

DocNext == Declare \/ Declared \/ Relate \/ Related
=============================================================================
