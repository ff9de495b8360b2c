------------------------------- MODULE TraceModule -------------------------------
(* Recorded histories of real modules: the steps, and everything that can be read
   from all modules, definitions and documents after each of them.               *)
EXTENDS SeirenModule, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
H == Trace[c].steps
Init == ModuleInit /\ k = 0 /\ \E i \in 1..Len(Trace) : c = i
Next == k < Len(H) /\ ModuleStep(H[k + 1].step) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<ovars, c, k>>
S == H[k]
Cp == [int |-> <<105, 110, 116>>, uuid |-> <<117, 117, 105, 100>>, text |-> <<116, 101, 120, 116>>,
       timestamp |-> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>, PK |-> <<80, 75>>, FK |-> <<70, 75>>]
\* the text of a row, its type and its badge
Told(row) == <<row.n, IF row.t = "" THEN <<>> ELSE <<Cp[row.t]>>, IF row.k = "" THEN <<>> ELSE <<Cp[row.k]>>>>
C31 == k > 0 =>
  /\ S.panic = ""
  /\ S.mods = mods
  /\ S.drafts = drafts
  /\ Len(S.docs) = Len(docs)
  /\ \A d \in 1..Len(docs) :
       /\ S.docs[d].boxes = [i \in 1..Len(docs[d].boxes) |-> [j \in 1..Len(docs[d].boxes[i]) |-> Told(docs[d].boxes[i][j])]]
       /\ S.docs[d].edges = docs[d].edges
  \* the same is printed of the same
  /\ Len(S.prints) = Len(mods)
  /\ \A i, j \in 1..Len(mods) : mods[i] = mods[j] => S.prints[i] = S.prints[j]
  /\ k > 1 => \A i \in 1..Len(H[k - 1].mods) : H[k - 1].mods[i] = mods[i] => S.prints[i] = H[k - 1].prints[i]
=============================================================================
