--------------------------------- MODULE MCMir ---------------------------------
(* All short histories of a document; they are replayed against the code.        *)
EXTENDS SeirenMir, TLC, Json
CONSTANTS MaxOps, EmitAt
VARIABLE hist
Op(op, a, b, v, pts) == [op |-> op, a |-> a, b |-> b, v |-> v, pts |-> pts]
Lines == {<<>>, <<<<8, 8>>, <<8, 8>>, <<16, 8>>>>}
Ops ==
  {Op("record", 0, 0, v, <<>>) : v \in {<<>>, <<1, 2, 3>>}}
  \cup {Op("field", 0, 0, <<97>>, <<>>)}
  \cup {Op("child", a, b, <<>>, <<>>) : a \in 0..Len(nodes), b \in 1..Len(nodes)}
  \cup {Op("edge", a, b, <<1>>, p) : a \in 1..Len(nodes), b \in 1..Len(nodes), p \in Lines}
  \cup {Op("edge", a, b, <<>>, <<>>) : a \in 1..Len(nodes), b \in 1..Len(nodes)}
  \cup {Op("path", e, 0, <<1>>, p) : e \in 1..Len(links), p \in Lines}
  \cup {Op("path", e, 0, <<>>, <<>>) : e \in 1..Len(links)}
  \cup {Op("at", n, 0, v, <<>>) : n \in 1..Len(nodes), v \in {<<>>, <<8, 16>>}}
  \cup {Op("size", n, 0, v, <<>>) : n \in 1..Len(nodes), v \in {<<>>, <<24, 32>>}}
  \cup {Op("port", n, d, <<8, 16>>, <<>>) : n \in 1..Len(nodes), d \in {1, 4}}
  \cup {Op("fill", 0, 0, <<3>>, <<>>)}
  \cup {Op("clear", n, 0, <<>>, <<>>) : n \in 1..Len(nodes)}
Init == MirInit /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E s \in Ops : MirStep(s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_<<mvars, hist>>
Emit == Len(hist) = EmitAt => PrintT("GEN" \o ToJson(hist))
=============================================================================
