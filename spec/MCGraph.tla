-------------------------------- MODULE MCGraph --------------------------------
(* All short histories of a route graph; they are replayed against the code.     *)
EXTENDS SeirenGraph, TLC, Json
CONSTANTS MaxOps, EmitAt
VARIABLE hist
Op(op, a, b, v) == [op |-> op, a |-> a, b |-> b, v |-> v]
Spots == {<<8, 8>>, <<16, 8>>}
Ops == {Op("node", 0, 0, v) : v \in Spots}
       \cup {Op("port", p, d, v) : p \in {1, 2}, d \in {1, 3}, v \in Spots}
       \cup {Op("link", a, b, <<>>) : a \in 1..Len(gnodes), b \in 1..Len(gnodes)}
       \cup {Op("fork", 0, 0, <<>>)}
Init == GraphInit /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E s \in Ops : GraphStep(s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_<<gvars, hist>>
Emit == Len(hist) = EmitAt => PrintT("GEN" \o ToJson(hist))
=============================================================================
