--------------------------------- MODULE MCPath ---------------------------------
(* All short paths over a few points; they are replayed against the code.         *)
EXTENDS SeirenPath, TLC, Json
CONSTANTS MaxCommands
Points == {<<0, 0>>, <<8, -16>>, <<3, 8>>}
Init == \E p \in Points : PathInit(p)
Next == /\ Len(path) < MaxCommands
        /\ \E p \in Points : MoveTo(p) \/ LineTo(p) \/ \E c \in Points : QuadTo(c, p)
Spec == Init /\ [][Next]_path
\* a path has a start, which stays; commands are only added; the recorded form is read back
HasStart == path[1].k = "move"
Grows == [][/\ Len(path') = Len(path) + 1 /\ SubSeq(path', 1, Len(path)) = path /\ StartPoint' = StartPoint]_path
Recorded == LET f == Flat(path, 1)
            IN /\ Commands(f, 1) = Len(path) /\ PathEnd(f) = EndPoint
               /\ NewPath(StartPoint[1], StartPoint[2]) = SubSeq(f, 1, 3)
Emit == PrintT("GEN" \o ToJson(Flat(path, 1)))
=============================================================================
