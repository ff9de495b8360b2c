----------------------------- MODULE SeirenSession -----------------------------
(* Histories.  Documents are edited, laid out by any of several engines in any
   order, and rendered.  Only what a history leaves in a document is modelled:
   how much of it is laid out and whether that belongs to its present contents.
   Layout engines have no state here: that is the point.

   A document is [rows, edges]: the number of rows of every box and the edges as
   pairs of references <<box>> or <<box, row>>.                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Fresh == "fresh"   \* computed from the present contents, in order
Stale == "stale"   \* left from something else
None == "none"

\* lay: [rects, ports, paths]; rects/ports per node, paths per edge
NodesOf(d) == {<<i>> : i \in 1..Len(d.rows)} \cup UNION {{<<i, j>> : j \in 1..d.rows[i]} : i \in 1..Len(d.rows)}
NoLayout(d) == [rects |-> [n \in NodesOf(d) |-> None], ports |-> [n \in NodesOf(d) |-> None],
                paths |-> [e \in 1..Len(d.edges) |-> None]]

\* an edit leaves what there is, but it is no longer of the present contents
Outdated(x) == IF x = None THEN None ELSE Stale
Edited(l, d) ==   \* d: the document after the edit
  [rects |-> [n \in NodesOf(d) |-> IF n \in DOMAIN l.rects THEN Outdated(l.rects[n]) ELSE None],
   ports |-> [n \in NodesOf(d) |-> IF n \in DOMAIN l.ports THEN Outdated(l.ports[n]) ELSE None],
   paths |-> [e \in 1..Len(d.edges) |-> IF e \in DOMAIN l.paths THEN Outdated(l.paths[e]) ELSE None]]
AddBox(d, n) == [d EXCEPT !.rows = Append(@, n)]
AddRow(d, b) == [d EXCEPT !.rows[b] = @ + 1]
AddEdge(d, a, b) == [d EXCEPT !.edges = Append(@, <<a, b>>)]

\* a node is given a place by hand, or part of one, or none
Put(l, n, how) ==
  [rects |-> [m \in DOMAIN l.rects |-> IF m # n THEN Outdated(l.rects[m]) ELSE IF how = "both" THEN Stale ELSE None],
   ports |-> [m \in DOMAIN l.ports |-> Outdated(l.ports[m])],
   paths |-> [e \in DOMAIN l.paths |-> Outdated(l.paths[e])]]

\* edges do not matter to places and connection points
EdgeAdded(l, d) ==
  [l EXCEPT !.paths = [e \in 1..Len(d.edges) |-> IF e \in DOMAIN l.paths THEN Outdated(l.paths[e]) ELSE None]]

Again(f, x) == [n \in DOMAIN f |-> x]
OutdatedAll(f) == [n \in DOMAIN f |-> Outdated(f[n])]
IsFresh(f) == \A n \in DOMAIN f : f[n] = Fresh
Placing(l) ==
  \* points placed for other rectangles do not belong to the new ones
  [rects |-> Again(l.rects, Fresh),
   ports |-> IF IsFresh(l.rects) THEN l.ports ELSE OutdatedAll(l.ports),
   paths |-> IF IsFresh(l.rects) THEN l.paths ELSE OutdatedAll(l.paths)]
Porting(l) ==
  \* points are given to what is placed
  [l EXCEPT !.ports = [n \in DOMAIN l.ports |->
                         IF l.rects[n] = None \/ (Len(n) = 2 /\ l.rects[<<n[1]>>] = None) THEN l.ports[n]
                         ELSE IF IsFresh(l.rects) THEN Fresh ELSE Stale],
            !.paths = IF IsFresh(l.rects) /\ IsFresh(l.ports) THEN l.paths ELSE OutdatedAll(l.paths)]

\* which edges get a path is settled only if everything is fresh; a node without connection points
\* has no paths
MayRoute(l, d, f) ==
  \A e \in DOMAIN f :
    IF IsFresh(l.rects) /\ IsFresh(l.ports) THEN f[e] = Fresh
    ELSE IF l.ports[d.edges[e][1]] = None \/ l.ports[d.edges[e][2]] = None THEN f[e] = None
    ELSE f[e] \in {None, Stale}

Complete(l) == (\A n \in DOMAIN l.rects : l.rects[n] # None) /\ (\A e \in DOMAIN l.paths : l.paths[e] # None)
AllFresh(l) == IsFresh(l.rects) /\ IsFresh(l.ports) /\ IsFresh(l.paths)
=============================================================================
