------------------------------- MODULE MCNotebook -------------------------------
(* Every picture of a few lines, also such that look like the markers.            *)
EXTENDS SeirenNotebook
CONSTANT MaxLines
Init == \E n \in 1..MaxLines : \E p \in [1..n -> {Begin, End, 1, 2}] : NotebookInit(p)
Spec == Init /\ [][NotebookNext]_nvars /\ WF_nvars(NotebookNext)
Ends == <>(nphase = "end")
\* a reader who knows that the last line closes the cell gets the picture back
Recovered == nphase = "end" => SubSeq(out, 2, Len(out) - 1) = picture
InOrder == Len(out) > 1 /\ nphase = "content" => SubSeq(out, 2, Len(out)) = SubSeq(picture, 1, Len(out) - 1)
=============================================================================
