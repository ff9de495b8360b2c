------------------------------ MODULE TraceWriter ------------------------------
(* Recorded calls of the real renderer on a scripted writer.                    *)
EXTENDS SeirenWriter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, r, k   \* case, run, calls seen
vars == <<c, r, k, wvars>>
O == Trace[c]
Run == O.runs[r]
Init == \E i \in 1..Len(Trace) : \E j \in 1..Len(Trace[i].runs) : c = i /\ r = j /\ k = 0 /\ WriterInit(Trace[i].total)
More == k < Len(Run.calls)
Call ==
  /\ More /\ k' = k + 1 /\ UNCHANGED <<c, r>>
  /\ LET e == Run.calls[k + 1] IN
     /\ e.match
     /\ CASE e.k = "take" -> Take(e.len, e.took)
          [] e.k = "intr" -> Interrupt(e.len)
          [] e.k = "zero" -> IF e.len = 0 THEN Take(0, 0) ELSE Zero(e.len)
          [] e.k = "flush" -> Flush
          [] OTHER -> Fail(e.len, e.k, e.said)
Returned == ~More /\ Return /\ UNCHANGED <<c, r, k>>
Done == wphase = "returned" /\ UNCHANGED vars
Next == Call \/ Returned \/ Done
\* without a layout nothing is written
Spec == Init /\ [][Next]_vars
Fits == wphase = "returned" =>
  /\ Run.got = got
  /\ (fault \notin {"", "zero"}) => Run.told = told
  /\ IF fault = "zero" THEN Run.res \notin {"ok", "panic", "layout", "error"} ELSE Run.res = result
Sound == O.ref = "ok"
=============================================================================
