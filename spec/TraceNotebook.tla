----------------------------- MODULE TraceNotebook -----------------------------
EXTENDS SeirenNotebook, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
O == Trace[c]
Init == \E i \in 1..Len(Trace) : c = i /\ NotebookInit(Trace[i].ref)
Next == NotebookNext /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, nvars>>
C24 ==
  /\ O.ended
  /\ \A i \in {Len(out)} : i > 0 => (i <= Len(O.lines) /\ O.lines[i] = out[i])
  /\ nphase = "end" => Len(O.lines) = Len(out)
=============================================================================
