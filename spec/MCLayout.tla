------------------------------- MODULE MCLayout -------------------------------
(* All documents of up to MaxBoxes boxes with up to MaxRows rows each: the
   placement has the properties the recorded placements are held to.           *)
EXTENDS SeirenLayout, TLC, Json
CONSTANTS MaxBoxes, MaxRows, EmitAll
Init == \E n \in 0..MaxBoxes : \E hs \in [1..n -> 1..MaxRows] : LayoutInit(hs)
Next == LayoutNext
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Next)

Grid == GridHolds(geo)
ViewOk == view # <<>> => ViewHolds(geo, view)
Tiles == \A i \in 1..Len(geo) : TilesHold(geo[i])
Ports == \A i \in 1..ported : PortsHold(geo[i]) /\ FaceOutwards(geo[i])
NoEarlyPorts == \A i \in (ported + 1)..Len(geo) : geo[i].ports = <<>>
\* what is placed stays where it is
Stays == [][\A i \in 1..Len(geo) : geo'[i].rect = geo[i].rect]_lvars
Finishes == <>LayoutDone
Emit == (EmitAll /\ LayoutDone) => PrintT("GEN" \o ToJson(heights))
=============================================================================
