------------------------------- MODULE TraceDraw -------------------------------
(* Documents put together by hand, with any styles, places and paths, and what
   the renderer makes of them.  Every line of the trace is one document:
     view, boxes, edges   what was given      panic, res, who, len, pic   the outcome *)
EXTENDS SeirenStyle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
O == Trace[c]

\* worked out once for the whole trace
AllStyles == [k \in 1..Len(Trace) |-> StylesOf(Trace[k])]
AllPlaces == [k \in 1..Len(Trace) |-> PlacesOf(Trace[k])]
AllPaths == [k \in 1..Len(Trace) |-> PathsOf(Trace[k])]
AllMissing == [k \in 1..Len(Trace) |-> MissingIn(Trace[k])]
Styled == AllStyles[c]
Placed == AllPlaces[c]
Paths == AllPaths[c]
Missing == AllMissing[c]

CanDraw == Missing = {} /\ O.panic = "" /\ O.res = "ok" /\ O.pic.wf
Init == (\E i \in 1..Len(Trace) : c = i) /\ SvgInit
Next == CanDraw /\ SvgNext(Styled, Placed, Paths) /\ UNCHANGED c
\* the route variables are of no use here
Idle == heights = <<>> /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0
Spec == (Init /\ Idle) /\ [][Next /\ UNCHANGED lvars]_<<c, svars, lvars>>

-----------------------------------------------------------------------------
Els == O.pic.els
Edges == 3 * Len(O.edges)
Outcome ==
  sphase = "ground" =>
    /\ O.panic = ""
    /\ IF Missing = {} THEN O.res = "ok" /\ O.pic.wf
       ELSE O.res = "layout" /\ O.who \in Missing /\ O.len = 0
Boxes ==
  CanDraw =>
    /\ O.pic.view = O.view
    /\ (sk > 0 /\ se = 0) => (sk <= Len(Els) - Edges /\ IsShape(Els[sk], shape))
    /\ (sk > 0 /\ se = 0 /\ shape.t = "text" /\ shape.s.anchor # "middle") => Els[sk].f = shape.f
    /\ sphase = "drawn" => sk = Len(Els)
Lines ==
  CanDraw =>
    LET k == Len(Els) - Edges + 3 * (se - 1) + (CASE sphase = "start" -> 1 [] sphase = "end" -> 2 [] OTHER -> 3)
    IN /\ se > 0 => (k >= 1 /\ IsShape(Els[k], shape))
       /\ sphase = "start" => Drawn(Els[k].path, Paths[se])
C28 == Outcome /\ Boxes /\ Lines
C15 == (sphase = "ground" => O.panic = "") /\ Lines
=============================================================================
