--------------------------------- MODULE MCEdits ---------------------------------
(* All short histories of modules and definitions; replayed against the code.      *)
EXTENDS SeirenModule, TLC, Json
CONSTANTS MaxOps, EmitAt
VARIABLE hist
F0 == [n |-> <<>>, t |-> "", k |-> ""]
Op(op, a, b, c, v, f, p, q) == [op |-> op, a |-> a, b |-> b, c |-> c, v |-> v, f |-> f, p |-> p, q |-> q]
O0(op, v) == Op(op, 0, 0, 0, v, F0, <<>>, <<>>)
O1(op, a, b, c) == Op(op, a, b, c, <<>>, F0, <<>>, <<>>)
A == <<97>>
B == <<98>>
Ops ==
  {O0("new", <<>>), O0("new", <<A>>), O0("draft", <<A>>), O0("draft", <<B>>)}
  \cup {Op("field", d, 0, 0, <<>>, [n |-> B, t |-> "int", k |-> "PK"], <<>>, <<>>) : d \in 1..Len(drafts)}
  \cup {O1("draftcopy", d, 0, 0) : d \in 1..Len(drafts)}
  \cup {O1("put", m, d, 0) : m \in 1..Len(mods), d \in 1..Len(drafts)}
  \cup {Op("rel", m, 0, 0, <<>>, F0, <<A>>, q) : m \in 1..Len(mods), q \in {<<A>>, <<A, B>>}}
  \cup {O1("entry", m, n, e) : m \in 1..Len(mods), n \in 1..Len(mods), e \in 1..2}
  \cup {O1("copy", m, 0, 0) : m \in 1..Len(mods)}
  \cup {O1("make", m, 0, 0) : m \in 1..Len(mods)}
Init == ModuleInit /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E s \in Ops : ModuleStep(s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_<<ovars, hist>>
Emit == Len(hist) = EmitAt => PrintT("GEN" \o ToJson(hist))
=============================================================================
