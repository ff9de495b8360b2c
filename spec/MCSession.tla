------------------------------- MODULE MCSession -------------------------------
(* All histories of two documents and two engines up to a given length.  The layout
   is symbolic: a layout phase marks what it computes with the contents it was
   computed from, so that the picture of a completely fresh document is a function
   of its contents.  The histories are replayed against the code.                *)
EXTENDS SeirenSession, TLC, Json
CONSTANTS MaxOps, EmitAt

VARIABLES
  docs,  \* contents
  lay,   \* what is laid out
  of,    \* of[d]: the contents the layout was computed from, phase by phase
  pics,  \* pictures so far: <<contents, picture>>
  hist,
  first  \* the contents at the start
vars == <<docs, lay, of, pics, hist, first>>

Starts == {<<[rows |-> <<1>>, edges |-> <<>>], [rows |-> <<1, 2>>, edges |-> << <<<<1>>, <<2, 2>>>> >>]>>,
          <<[rows |-> <<2>>, edges |-> << <<<<1, 1>>, <<1, 2>>>> >>], [rows |-> <<>>, edges |-> <<>>]>>}
Nothing == [place |-> <<>>, ports |-> <<>>, route |-> <<>>]  \* each empty or <<contents>>

Init ==
  /\ docs \in Starts /\ first = docs
  /\ lay = [i \in 1..2 |-> NoLayout(docs[i])]
  /\ of = [i \in 1..2 |-> Nothing]
  /\ pics = {} /\ hist = <<>>

Did(op) == Len(hist) < MaxOps /\ hist' = Append(hist, op)

Grow(i) ==
  \/ /\ Len(docs[i].rows) < 3
     /\ \E n \in {0, 2} : LET d == AddBox(docs[i], n) IN
          docs' = [docs EXCEPT ![i] = d] /\ lay' = [lay EXCEPT ![i] = Edited(@, d)] /\ Did(<<"addbox", i, n>>)
     /\ of' = [of EXCEPT ![i] = Nothing] /\ UNCHANGED pics
  \/ /\ \E b \in 1..Len(docs[i].rows) : docs[i].rows[b] < 2 /\ LET d == AddRow(docs[i], b) IN
          docs' = [docs EXCEPT ![i] = d] /\ lay' = [lay EXCEPT ![i] = Edited(@, d)] /\ Did(<<"addrow", i, b>>)
     /\ of' = [of EXCEPT ![i] = Nothing] /\ UNCHANGED pics
  \/ /\ Len(docs[i].edges) < 2 /\ docs[i].rows # <<>>
     /\ LET d == AddEdge(docs[i], <<1>>, <<Len(docs[i].rows)>>) IN
          docs' = [docs EXCEPT ![i] = d] /\ lay' = [lay EXCEPT ![i] = EdgeAdded(@, d)]
          /\ Did(<<"addedge", i, <<1>>, <<Len(docs[i].rows)>>>>)
     /\ of' = [of EXCEPT ![i].route = <<>>] /\ UNCHANGED pics
Place(i) ==
  /\ docs[i].rows # <<>>
  /\ \E n \in {<<1>>, <<1, 1>>} \cap NodesOf(docs[i]) : \E how \in {"none", "at", "both"} :
       lay' = [lay EXCEPT ![i] = Put(@, n, how)] /\ Did(<<"put", i, n, how>>)
  /\ of' = [of EXCEPT ![i] = Nothing] /\ UNCHANGED <<docs, pics>>
Layout(i, e) ==
  \/ /\ lay' = [lay EXCEPT ![i] = Placing(@)] /\ Did(<<"place", i, e>>)
     /\ of' = [of EXCEPT ![i].place = <<docs[i]>>] /\ UNCHANGED <<docs, pics>>
  \/ /\ lay' = [lay EXCEPT ![i] = Porting(@)] /\ Did(<<"ports", i, e>>)
     /\ of' = [of EXCEPT ![i].ports = of[i].place] /\ UNCHANGED <<docs, pics>>
  \/ /\ \E f \in [1..Len(docs[i].edges) -> {Fresh, Stale, None}] :
          MayRoute(lay[i], docs[i], f) /\ lay' = [lay EXCEPT ![i].paths = f]
     /\ Did(<<"route", i, e>>)
     /\ of' = [of EXCEPT ![i].route = of[i].ports \o <<docs[i]>>] /\ UNCHANGED <<docs, pics>>
Render(i) ==
  /\ pics' = IF AllFresh(lay[i]) THEN pics \cup {<<docs[i], of[i]>>} ELSE pics
  /\ Did(<<"render", i>>) /\ UNCHANGED <<docs, lay, of>>
Next == UNCHANGED first /\ \E i \in 1..2 : Grow(i) \/ Place(i) \/ (\E e \in 1..2 : Layout(i, e)) \/ Render(i)
Spec == Init /\ [][Next]_vars

\* the picture of a document that is completely and freshly laid out comes from its present
\* contents alone (edges do not matter to the places)
OfNow == \A i \in 1..2 : AllFresh(lay[i]) =>
  /\ docs[i].rows # <<>> => (Len(of[i].place) = 1 /\ of[i].place[1].rows = docs[i].rows)
  /\ (docs[i].rows # <<>> /\ docs[i].edges # <<>>) =>
       /\ Len(of[i].ports) = 1 /\ of[i].ports[1].rows = docs[i].rows
       /\ Len(of[i].route) = 2 /\ of[i].route[1].rows = docs[i].rows /\ of[i].route[2] = docs[i]
\* after the three phases in order everything is fresh
Ordered(i) ==
  LET h == SelectSeq(hist, LAMBDA o : o[2] = i /\ o[1] # "render")
      n == Len(h)
  IN n >= 3 /\ h[n][1] = "route" /\ h[n - 1][1] = "ports" /\ h[n - 2][1] = "place"
InOrder == \A i \in 1..2 : Ordered(i) => (AllFresh(lay[i]) /\ Complete(lay[i]))
FreshIsComplete == \A i \in 1..2 : AllFresh(lay[i]) => Complete(lay[i])
Emit == (Len(hist) = EmitAt) => PrintT("GEN" \o ToJson([d |-> first, h |-> hist]))
\* for checking without histories
NoHist == <<docs, lay, of, pics>>
=============================================================================
