--------------------------------- MODULE MCCli ---------------------------------
EXTENDS SeirenCli, TLC
Init == \E d \in 0..3 : \E s \in BOOLEAN : \E r \in BOOLEAN : \E t \in 1..3 : \E n \in 0..3 :
          CliInit([readable |-> r, diags |-> d, some |-> s, total |-> t], n)
Next == CliNext
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
Exits == <>(cphase = "exit")
OnlyThenDraw == (cphase = "draw") => reports = inp.diags
=============================================================================
