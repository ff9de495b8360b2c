------------------------------- MODULE SeirenMir -------------------------------
(* The document as a container.  Nodes and edges are created and never removed;
   what is said about one of them stays until something else is said about it.
   Nodes and edges are numbered in the order of creation; 0 is the body.
   A step is [op, a, b, v, pts]:
     record v (colour or <<>>)   field v (text)       child a (0: the body) b
     edge a b pts (no path: v is empty)   path a pts (no path: v is empty)
     at a v (<<>> or <<x, y>>)   size a v (<<>> or <<w, h>>)
     port a v (<<x, y>>) b (side) clear a
     fill v (<<n>>)   n fields of which nothing else is ever said                      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
  nodes,  \* sequence of [kind, said, at, size, kids, ports]
  body,   \* children of the body
  links,  \* sequence of [a, b, some, pts]; pts is a path if some
  more    \* how many fields there are besides, of which nothing is said
mvars == <<nodes, body, links, more>>
MirInit == nodes = <<>> /\ body = <<>> /\ links = <<>> /\ more = 0

Node(kind, said) == [kind |-> kind, said |-> said, at |-> <<>>, size |-> <<>>, kids |-> <<>>, ports |-> <<>>]
Sides == <<"U", "R", "D", "L">>
IsNode(n) == n \in 1..Len(nodes)

Create(s) == /\ s.op \in {"record", "field"}
             /\ nodes' = Append(nodes, Node(s.op, s.v)) /\ UNCHANGED <<body, links>>
Child(s) == /\ s.op = "child" /\ IsNode(s.b) /\ (s.a = 0 \/ IsNode(s.a))
            /\ IF s.a = 0 THEN body' = Append(body, s.b) /\ UNCHANGED nodes
               ELSE nodes' = [nodes EXCEPT ![s.a].kids = Append(@, s.b)] /\ UNCHANGED body
            /\ UNCHANGED links
Edge(s) == /\ s.op = "edge" /\ IsNode(s.a) /\ IsNode(s.b)
           /\ links' = Append(links, [a |-> s.a, b |-> s.b, some |-> s.v # <<>>, pts |-> s.pts]) /\ UNCHANGED <<nodes, body>>
Reroute(s) == /\ s.op = "path" /\ s.a \in 1..Len(links)
              /\ links' = [links EXCEPT ![s.a].pts = s.pts, ![s.a].some = s.v # <<>>] /\ UNCHANGED <<nodes, body>>
Place(s) == /\ s.op \in {"at", "size"} /\ IsNode(s.a)
            /\ nodes' = IF s.op = "at" THEN [nodes EXCEPT ![s.a].at = s.v] ELSE [nodes EXCEPT ![s.a].size = s.v]
            /\ UNCHANGED <<body, links>>
AddPort(s) == /\ s.op = "port" /\ IsNode(s.a)
              /\ nodes' = [nodes EXCEPT ![s.a].ports = Append(@, [x |-> s.v[1], y |-> s.v[2], d |-> Sides[s.b]])]
              /\ UNCHANGED <<body, links>>
Clear(s) == /\ s.op = "clear" /\ IsNode(s.a)
            /\ nodes' = [nodes EXCEPT ![s.a].ports = <<>>] /\ UNCHANGED <<body, links>>
Fill(s) == s.op = "fill" /\ more' = more + s.v[1] /\ UNCHANGED <<nodes, body, links>>
MirStep(s) == \/ (Create(s) \/ Child(s) \/ Edge(s) \/ Reroute(s) \/ Place(s) \/ AddPort(s) \/ Clear(s)) /\ UNCHANGED more
              \/ Fill(s)

\* a node with both has a rectangle
Area(n) == IF n.at # <<>> /\ n.size # <<>> THEN n.at \o n.size ELSE <<>>
-----------------------------------------------------------------------------
TypesOk ==
  /\ \A i \in 1..Len(body) : IsNode(body[i])
  /\ \A i \in 1..Len(nodes) : \A k \in 1..Len(nodes[i].kids) : IsNode(nodes[i].kids[k])
  /\ \A i \in 1..Len(links) : IsNode(links[i].a) /\ IsNode(links[i].b)
\* nothing is lost or renumbered
Begins(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Kept ==
  [][/\ Begins(body, body') /\ more <= more'
     /\ Len(nodes') >= Len(nodes) /\ Len(links') >= Len(links)
     /\ \A i \in 1..Len(nodes) : nodes'[i].kind = nodes[i].kind /\ nodes'[i].said = nodes[i].said /\ Begins(nodes[i].kids, nodes'[i].kids)
     /\ \A i \in 1..Len(links) : links'[i].a = links[i].a /\ links'[i].b = links[i].b
     \* one thing at a time
     /\ Cardinality({i \in 1..Len(nodes) : nodes'[i] # nodes[i]}) + Cardinality({i \in 1..Len(links) : links'[i] # links[i]})
        + (IF body' # body THEN 1 ELSE 0) + (Len(nodes') - Len(nodes)) + (Len(links') - Len(links))
        + (IF more' # more THEN 1 ELSE 0) <= 1
    ]_mvars
=============================================================================
