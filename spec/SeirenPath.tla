------------------------------- MODULE SeirenPath -------------------------------
(* A path under construction: a sequence of commands, the first of which moves to
   its start.  A command is [k, pts] with k in {"move", "line", "quad"}.         *)
EXTENDS SeirenGeom
VARIABLE path
Cmd(k, pts) == [k |-> k, pts |-> pts]
PathInit(p) == path = <<Cmd("move", <<p>>)>>
MoveTo(p) == path' = Append(path, Cmd("move", <<p>>))
LineTo(p) == path' = Append(path, Cmd("line", <<p>>))
QuadTo(c, p) == path' = Append(path, Cmd("quad", <<c, p>>))
StartPoint == path[1].pts[1]
EndPoint == LET l == path[Len(path)].pts IN l[Len(l)]
\* as the numbers in which a path is recorded
Number(k) == CASE k = "move" -> 1 [] k = "line" -> 2 [] k = "quad" -> 3
RECURSIVE Flat(_, _)
Flat(p, i) == IF i > Len(p) THEN <<>>
              ELSE <<Number(p[i].k)>> \o p[i].pts[1] \o (IF p[i].k = "quad" THEN p[i].pts[2] ELSE <<>>) \o Flat(p, i + 1)
=============================================================================
