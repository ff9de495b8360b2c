----------------------------- MODULE SeirenNotebook -----------------------------
(* The output of a notebook cell, line by line.  Lines are numbers; Begin and End
   stand for the markers.                                                        *)
EXTENDS Integers, Sequences
VARIABLES picture, out, nphase
nvars == <<picture, out, nphase>>
Begin == -1
End == -2
NotebookInit(p) == picture = p /\ out = <<>> /\ nphase = "begin"
NotebookNext ==
  \/ nphase = "begin" /\ out' = <<Begin>> /\ nphase' = "content" /\ UNCHANGED picture
  \/ nphase = "content" /\ Len(out) <= Len(picture) /\ out' = Append(out, picture[Len(out)]) /\ UNCHANGED <<picture, nphase>>
  \/ nphase = "content" /\ Len(out) = Len(picture) + 1 /\ out' = Append(out, End) /\ nphase' = "end" /\ UNCHANGED picture
Framed == nphase = "end" => out = <<Begin>> \o picture \o <<End>>
=============================================================================
