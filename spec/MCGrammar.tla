------------------------------- MODULE MCGrammar -------------------------------
(* All token sequences up to a length that are viable up to their last token.
   Checks the automaton against the documented grammar, and writes the sequences
   out for replay.                                                              *)
EXTENDS SeirenGrammar, SeirenEBNF, TLC, Json
CONSTANTS MaxLen, EmitFrom
VARIABLES w, g, good

Init == w = <<>> /\ g = G0 /\ good = TRUE
\* Names differ, so that the printed form can be told apart.
Tk(k, n) == [k |-> k, v |-> IF k = "ident" THEN <<96 + n>> ELSE <<>>]
Next ==
  /\ good /\ Len(w) < MaxLen
  /\ \E k \in Kinds :
       /\ w' = Append(w, k)
       /\ LET t == Tk(k, Len(w) + 1) IN
          /\ good' = Viable(g, t)
          /\ g' = IF Viable(g, t) THEN Step(g, t) ELSE g
Spec == Init /\ [][Next]_<<w, g, good>>

Emit == Len(w) >= EmitFrom => PrintT("GEN" \o ToJson(w))
\* the automaton accepts exactly what the grammar does
Agrees == (good /\ Accepting(g)) <=> IsSentence(w)
\* every viable prefix can be completed ...
Completes == good => Accepting(Run(g, Completion(g)))
\* ... and no other one can (by a few more tokens)
DeadStays == ~good => ~IsSentence(w \o Completion(g)) /\ ~IsSentence(w)
\* printing and parsing are inverse (C20 on the design)
RoundTrip == (good /\ Accepting(g)) =>
  LET p == Parse(G0, PrintToks(ModuleOf(g))) IN Accepting(p) /\ ModuleOf(p) = ModuleOf(g)
=============================================================================
