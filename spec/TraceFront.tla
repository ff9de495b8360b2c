------------------------------ MODULE TraceFront ------------------------------
(* Validation of recorded parses.  Every line of the trace is one text with
   what the real parser made of it; the specification reads the same text.    *)
EXTENDS SeirenFront, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c   \* the case
vars == <<c, fvars>>
O == Trace[c]

Init == \E i \in 1..Len(Trace) : c = i /\ FrontInit(Trace[i].src)
Done == phase \in {"done", "murky"} /\ UNCHANGED vars
Next == (FrontNext /\ UNCHANGED c) \/ Done
Spec == Init /\ [][Next]_vars
\* the machine is deterministic: this says which state of a case it is (MCText checks it)
Where == <<c, phase, pos, ti>>

Ended == phase = "done"
NDiag == Len(O.lex) + Len(O.syn)

\* C05: the parser returns (a hang ends the recording)
C05 == O.panic = ""
\* C01
C01 == (phase = "murky" => NDiag > 0) /\ (Ended => (O.panic = "" /\ ((O.some /\ NDiag = 0) <=> Sentence) /\ (~Sentence => NDiag > 0)))
\* C02
C02 == (Ended /\ Sentence) => (O.panic = "" /\ O.some /\ O.ast = Result)
\* parsing changes nothing: the second parse gave the same
C17 == O.again

\* C04
Starts(ds) == {ds[i].s : i \in 1..Len(ds)}
C04 ==
  Ended =>
    /\ O.panic = ""
    /\ \A i \in 1..Len(O.lex) : O.lex[i].s \in 0..Len(src) /\ O.lex[i].e \in O.lex[i].s..Len(src)
    /\ \A i \in 1..Len(O.syn) : O.syn[i].s \in 0..Len(src) /\ O.syn[i].e \in O.syn[i].s..(Len(src) + 1)
    /\ (LexClean /\ synd # <<>>) => (NDiag = 1 /\ Starts(O.lex \o O.syn) = {synd[1]})
    /\ (LexClean /\ synd = <<>>) => NDiag = 0
    \* stray runs: where reading became impossible
    /\ fatal = <<>> =>
         /\ {r.fail : r \in {runs[i] : i \in 1..Len(runs)}} \subseteq Starts(O.lex)
    /\ fatal # <<>> =>
         /\ \E x \in Starts(O.lex) : x >= fatal[1].s
         /\ {r.fail : r \in {runs[i] : i \in 1..Len(runs)}} \subseteq Starts(O.lex)
    /\ {x.s : x \in {surs[i] : i \in 1..Len(surs)}} \subseteq Starts(O.lex)
    \* expected tokens could stand there
    /\ \A i \in 1..Len(O.syn) : \A j \in 1..Len(O.syn[i].exp) :
         (LexClean /\ synd # <<>>) => O.syn[i].exp[j] \in ViableNames(g)

\* C06
C06 ==
  (Ended /\ (runs # <<>> \/ fatal # <<>>)) =>
    /\ O.panic = ""
    /\ O.some <=> HasModule
    /\ O.ast = Result
    /\ Len(O.lex) = Len(runs) + Len(fatal) + Len(surs)
    /\ (fatal = <<>> => Len(O.syn) = Len(synd))

\* C03: the case comes with a second text of the same meaning (peer) and what the
\* parser made of that one.  SameMeaning guards against errors of the generator.
SameMeaning == (Ended /\ "peer" \in DOMAIN O) => Canon(toks) = Canon(LexAll(O.peer.src, 0))
C03 == (Ended /\ "peer" \in DOMAIN O) =>
  /\ O.panic = "" /\ O.peer.panic = ""
  /\ (O.some /\ NDiag = 0) <=> (O.peer.some /\ Len(O.peer.lex) + Len(O.peer.syn) = 0)
  /\ (O.some /\ NDiag = 0) => O.ast = O.peer.ast

\* C20: the text was printed from O.mod
C20 == (Ended /\ "mod" \in DOMAIN O) =>
  /\ O.panic = ""
  /\ Sentence /\ Result = O.mod
  /\ O.some /\ NDiag = 0 /\ O.ast = O.mod
=============================================================================
