-------------------------------- MODULE MCDraw --------------------------------
(* Small documents in every style, complete or with one thing missing; each is drawn
   to the end, and the whole picture has the design's properties.  The documents are
   replayed against the code.                                                    *)
EXTENDS SeirenStyle, Json
CONSTANTS Mode, EmitAll
VARIABLES doc, out

C1 == <<17, 34, 51>>
C2 == <<-1>>
C3 == <<170, 187, 204>>
C4 == <<5, 6, 200>>
NoFont == [family |-> "", weight |-> "", size |-> ""]
Bold == [family |-> "Monospace1", weight |-> "bold", size |-> ""]
Sp(t, col, f) == [text |-> t, color |-> col, font |-> f]
Spot(k) == <<80 + 8 * k, 160 + 40 * k>>
Size(k) == <<400 + 40 * k, 96 + 16 * k>>

Titles == {Sp(<<97>>, <<>>, NoFont), Sp(<<60, 98>>, C1, Bold)}
Subs == {<<>>, <<Sp(<<99>>, C2, NoFont)>>}
Badges == {<<>>, <<[text |-> <<100>>, color |-> C3, bg |-> <<>>]>>, <<[text |-> <<101>>, color |-> <<>>, bg |-> C4]>>}
RowsAt(k) == {[at |-> Spot(k), size |-> Size(k), title |-> t, sub |-> s, badge |-> b, bg |-> g, border |-> r] :
                t \in Titles, s \in Subs, b \in Badges, g \in {<<>>, C1}, r \in {<<>>, C3}}
Plain(k) == [at |-> Spot(k), size |-> Size(k), title |-> Sp(<<97>>, <<>>, NoFont), sub |-> <<>>, badge |-> <<>>, bg |-> C4, border |-> C1]
BoxOf(k, rows) == [at |-> Spot(k), size |-> Size(k), bg |-> C3, border |-> <<>>, rows |-> rows]
Boxes(k, rows) == {[at |-> Spot(k), size |-> Size(k), bg |-> g, border |-> r, rows |-> rows] : g \in {<<>>, C1}, r \in {<<>>, C2}}
Doc(boxes, edges) == [view |-> <<0, 0, 8000, 8000>>, boxes |-> boxes, edges |-> edges, late |-> FALSE]
Bend == <<<<0, 0>>, <<0, 800>>, <<800, 800>>>>
Edge(a, b, pts) == [a |-> a, b |-> b, pts |-> pts]

\* every style of a box with a row, or of two rows; several boxes; one thing missing
OneRow == {Doc(<<b>>, <<>>) : b \in Boxes(0, <<>>) \cup UNION {Boxes(0, <<r>>) : r \in RowsAt(1)}}
TwoRows == {Doc(<<BoxOf(0, <<r, q>>)>>, <<>>) : r \in RowsAt(1), q \in RowsAt(2)}
Several == {Doc([i \in 1..Len(hs) |-> BoxOf(10 * i, [j \in 1..hs[i] |-> Plain(10 * i + j)])],
                [i \in 1..n |-> Edge(<<1>>, <<Len(hs)>>, IF i = 2 THEN <<Bend[3], Bend[2]>> ELSE Bend)]) :
              hs \in UNION {[1..m -> 0..2] : m \in 1..3}, n \in 0..2}
           \cup {Doc(<<>>, <<>>)}
Without(x, w) == [x EXCEPT !.at = IF w \in {1, 3} THEN <<>> ELSE @, !.size = IF w \in {2, 3} THEN <<>> ELSE @]
Full2 == Doc(<<BoxOf(1, <<Plain(2), Plain(3)>>), BoxOf(5, <<Plain(6)>>)>>, <<Edge(<<1, 2>>, <<2>>, Bend), Edge(<<2, 1>>, <<1>>, Bend)>>)
OneLess(d) ==
  UNION {{[d EXCEPT !.boxes[i] = Without(@, w)] : w \in 1..3} : i \in 1..Len(d.boxes)}
  \cup UNION {UNION {{[d EXCEPT !.boxes[i].rows[j] = Without(@, w)] : w \in 1..3} : j \in 1..Len(d.boxes[i].rows)} : i \in 1..Len(d.boxes)}
  \cup {[d EXCEPT !.edges[e].pts = <<>>] : e \in 1..Len(d.edges)}
Lacking == OneLess(Full2) \cup UNION {OneLess(d) : d \in OneLess(Full2)}
Docs == CASE Mode = "row" -> OneRow [] Mode = "rows" -> TwoRows [] Mode = "several" -> Several [] Mode = "lacking" -> Lacking

Init == doc \in Docs /\ out = <<>> /\ SvgInit
        /\ heights = <<>> /\ base = 0 /\ tall = 0 /\ geo = <<>> /\ view = <<>> /\ ported = 0
Next == /\ MissingIn(doc) = {} /\ SvgNext(StylesOf(doc), PlacesOf(doc), PathsOf(doc))
        /\ out' = (IF sk' = sk THEN out ELSE Append(out, shape'))
        /\ UNCHANGED <<doc, lvars>>
Spec == Init /\ [][Next]_<<doc, out, svars, lvars>> /\ WF_<<out, svars>>(Next)
Ends == <>(sphase = "drawn" \/ MissingIn(doc) # {})

-----------------------------------------------------------------------------
Of(ts) == {i \in 1..Len(out) : out[i].t \in ts}
Count(t) == Cardinality({i \in 1..Len(out) : out[i].t = t})
IsFrame(i) == out[i].t = "rect" /\ out[i].d = 1 /\ i > 1 /\ "clip" \notin DOMAIN out[i].n
Frames == {i \in 1..Len(out) : IsFrame(i)}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Texts == Sum([i \in 1..Len(doc.boxes) |->
               Sum([j \in 1..Len(doc.boxes[i].rows) |-> 1 + Len(doc.boxes[i].rows[j].sub) + Len(doc.boxes[i].rows[j].badge)], Len(doc.boxes[i].rows))],
             Len(doc.boxes))
Colours == {"", Ground, EdgeColour, "transparent"} \cup {Colour(v) : v \in {C1, C2, C3, C4}}

Ordered == \* the ground lies under everything, clip regions are known before they are used, lines lie over the boxes
  /\ Len(out) > 0 => out[1] = GroundShape
  /\ Len(out) > 1 => out[2] = DefsShape
  /\ \A i \in Of({"clipPath"}) : \A j \in Frames : i < j
  /\ \A i \in Of({"path"}) : \A j \in Frames \cup Of({"text", "line"}) : j < i
Clipped == \* a background is clipped to the box it lies in, and the region is that box
  \A i \in 1..Len(out) : ("clip" \in DOMAIN out[i].n) =>
    /\ out[i].n.clip = Cardinality({j \in Frames : j < i})
    /\ \E j \in Of({"clipPath"}) : out[j].n.id = out[i].n.clip /\ out[j + 1].n = out[CHOOSE f \in Frames : f < i /\ \A g \in Frames : g < i => g <= f].n
Honest == \* no colour that nobody asked for
  \A i \in 1..Len(out) : {out[i].s[k] : k \in DOMAIN out[i].s \cap {"fill", "stroke"}} \subseteq Colours \ {""}
Complete == sphase = "drawn" =>
  /\ Count("text") = Texts /\ Count("clipPath") = Len(doc.boxes) /\ Cardinality(Frames) = Len(doc.boxes)
  /\ Count("path") = Len(doc.edges) /\ sk = Len(out)
  /\ Count("line") <= Texts
Refused == MissingIn(doc) # {} => out = <<>>
Emit == (EmitAll /\ sphase = "ground") => PrintT("GEN" \o ToJson(doc))
=============================================================================
