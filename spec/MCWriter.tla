------------------------------- MODULE MCWriter -------------------------------
(* All behaviours of a writer of up to MaxEvents events against a document of
   Total chunks; the scripts are replayed against the real renderer.           *)
EXTENDS SeirenWriter, TLC, Json
CONSTANTS Total, MaxEvents, EmitAll
VARIABLE script
vars == <<wvars, script>>
Kinds == {"other", "pipe", "denied"}
Note(e) == Len(script) < MaxEvents /\ script' = Append(script, e)
Init == WriterInit(Total) /\ script = <<>>
Next ==
  \/ \E n \in 1..(Total - got) : \E k \in 1..n :
       Take(n, k) /\ (Note(<<"take", k>>) \/ (n = k /\ k = Total - got /\ UNCHANGED script))
  \/ \E n \in {Total - got} : n > 0 /\
       \/ Interrupt(n) /\ Note(<<"intr", 0>>)
       \/ Zero(n) /\ Note(<<"zero", 0>>)
       \/ \E k \in Kinds : Fail(n, k, "no " \o k) /\ Note(<<k, 0>>)
  \/ Return /\ UNCHANGED script
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Returns == <>(wphase = "returned")
OnceAccepted == [][got' >= got]_vars
Emit == (EmitAll /\ wphase = "returned") => PrintT("GEN" \o ToJson(script))
=============================================================================
