------------------------------ MODULE SeirenWriter -----------------------------
(* Writing a document of `total` bytes through a writer that may take only part
   of what it is offered, be interrupted, take nothing, or fail.               *)
EXTENDS Naturals, Sequences

VARIABLES
  total,  \* length of the document
  got,    \* bytes the writer has accepted
  wphase, \* "writing", "failed" or "returned"
  fault,  \* how the writer failed
  cause,  \* what the writer said when it failed
  result, \* what rendering returned
  told    \* what it said
wvars == <<total, got, wphase, fault, cause, result, told>>
saidvars == <<cause, told>>

WriterInit(n) == total = n /\ got = 0 /\ wphase = "writing" /\ fault = "" /\ result = "" /\ cause = "" /\ told = ""

\* the renderer offers n bytes that follow the accepted ones in the document
CanOffer(n) == wphase = "writing" /\ got + n <= total
Take(n, k) == CanOffer(n) /\ k <= n /\ (n > 0 => k > 0) /\ got' = got + k /\ UNCHANGED <<total, wphase, fault, result, saidvars>>
Interrupt(n) == CanOffer(n) /\ UNCHANGED wvars
Zero(n) == CanOffer(n) /\ n > 0 /\ wphase' = "failed" /\ fault' = "zero" /\ UNCHANGED <<total, got, result, saidvars>>
Fail(n, k, m) == CanOffer(n) /\ wphase' = "failed" /\ fault' = k /\ cause' = m /\ UNCHANGED <<total, got, result, told>>
Flush == wphase = "writing" /\ UNCHANGED wvars
Return ==
  \/ wphase = "writing" /\ got = total /\ wphase' = "returned" /\ result' = "ok" /\ UNCHANGED <<total, got, fault, saidvars>>
  \/ wphase = "failed" /\ wphase' = "returned" /\ result' = "io:" \o fault /\ told' = cause /\ UNCHANGED <<total, got, fault, cause>>

AllOrError == wphase = "returned" => (result = "ok" <=> got = total /\ fault = "")
Prefix == got <= total
\* the failure that comes back is the one the writer gave
GivenBack == (wphase = "returned" /\ fault # "") => told = cause
=============================================================================
