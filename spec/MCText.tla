--------------------------------- MODULE MCText ---------------------------------
(* All texts made of at most MaxChunks chunks, read by the front end.  Checks the
   front end's design; the texts are written out for replay.                     *)
EXTENDS SeirenFront, TLC, Json
CONSTANTS MaxChunks, EmitAll

Chunks == <<
  <<101,114,100>>,            \* erd
  <<123>>, <<125>>,           \* { }
  <<32>>, <<10>>, <<13>>,     \* blank LF CR
  <<47,47>>, <<47>>,          \* // /
  <<96>>,                     \* `
  <<92,117,48,48,54,49>>,     \* \u0061
  <<92>>,                     \* \
  <<111,45,45,111>>,          \* o--o
  <<111>>, <<45>>,            \* o -
  <<35>>,                     \* #
  <<59>>                      \* ;
>>

VARIABLE n
vars == <<n, fvars>>
Init == \E s \in {<<>>} : FrontInit(s) /\ n = 0
Grow == /\ phase = "lex" /\ pos = 0 /\ toks = <<>> /\ runs = <<>> /\ n >= 0 /\ n < MaxChunks
        /\ \E i \in 1..Len(Chunks) : src' = src \o Chunks[i]
        /\ n' = n + 1
        /\ UNCHANGED <<phase, pos, toks, runs, fatal, surs, g, ti, synd>>
Start == n >= 0 /\ n' = -1 /\ UNCHANGED fvars
Read == n = -1 /\ FrontNext /\ UNCHANGED n
Done == phase \in {"done", "murky"} /\ UNCHANGED vars
Next == Grow \/ Start \/ Read \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Grow \/ Start) /\ WF_vars(Read)

Emit == (EmitAll /\ n = -1 /\ pos = 0 /\ phase = "lex") => PrintT("GEN" \o ToJson(src))

Finished == phase \in {"done", "murky"}
\* the machine never stops half way
Terminates == <>Finished
\* exactly one thing can happen next
Deterministic == (n = -1 /\ ~Finished) =>
  LET en == {a \in {"t", "s", "f", "m", "n", "e"} :
       CASE a = "t" -> phase = "lex" /\ Cur < Len(src) /\ TokenAt(src, Cur).ok
         [] a = "s" -> phase = "lex" /\ Cur < Len(src) /\ ~TokenAt(src, Cur).ok /\ NextReadable(src, Cur + 1) >= 0
         [] a = "f" -> phase = "lex" /\ Cur < Len(src) /\ ~TokenAt(src, Cur).ok /\ NextReadable(src, Cur + 1) = -1
         [] a = "m" -> phase = "lex" /\ Cur < Len(src) /\ ~TokenAt(src, Cur).ok /\ NextReadable(src, Cur + 1) = -2
         [] a = "n" -> phase = "lex" /\ Cur = Len(src)
         [] OTHER -> phase = "parse"}
  IN \E a \in en : en = {a}
\* tokens lie in order, do not overlap, and are not empty
InOrder == \A i \in 1..Len(toks) :
  /\ toks[i].s < toks[i].e /\ toks[i].e <= Len(src)
  /\ i > 1 => toks[i - 1].e <= toks[i].s
\* every character belongs to a token, to a stray run in front of one, or to trivia
Covered == phase = "parse" =>
  \A i \in 1..Len(src) :
    \/ \E j \in 1..Len(toks) : toks[j].s < i /\ i <= toks[j].e
    \/ src[i] \in {SP, TAB}
    \/ \E j \in 1..i : StartsComment(src, j - 1) /\ \A k \in j..i : src[k] # LF
\* a diagnostic is placed inside the text or at its end
Placed == /\ \A i \in 1..Len(runs) : runs[i].s <= runs[i].fail /\ runs[i].fail <= Len(src)
          /\ synd # <<>> => synd[1] \in 0..Len(src)
\* refused texts have something to report
Reported == (phase = "done" /\ ~Sentence) => (runs # <<>> \/ fatal # <<>> \/ surs # <<>> \/ synd # <<>>)
\* a clean text and its tokens mean the same
CleanLex == (phase = "parse" /\ LexClean) => LexAll(src, 0) = toks
=============================================================================
