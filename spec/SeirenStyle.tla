------------------------------ MODULE SeirenStyle ------------------------------
(* Documents put together by hand: O.boxes with rows, O.edges; what their styles,
   places and paths mean to the machine that draws (SeirenSvg).  A place is `at`
   and `size`, each empty if not given; a colour is <<>> (none), <<-1>> (white),
   <<-2>> (black) or <<red, green, blue>>.                                       *)
EXTENDS SeirenSvg

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(n) == HexDigit[n \div 16 + 1] \o HexDigit[n - 16 * (n \div 16) + 1]
Colour(v) == CASE v = <<>> -> "" [] v = <<-1>> -> "#ffffff" [] v = <<-2>> -> "#000000"
               [] OTHER -> "#" \o Hex(v[1]) \o Hex(v[2]) \o Hex(v[3])
Family(w) == CASE w = "" -> "" [] w = "SansSerif1" -> "Arial,sans-serif" [] w = "SansSerif2" -> "Verdana,sans-serif"
               [] w = "SansSerif3" -> "Trebuchet MS,sans-serif" [] w = "Monospace1" -> "Monaco,Lucida Console,monospace"
               [] w = "Monospace2" -> "Courier New,monospace"
Fonts(w) == With(With(With(NoFonts, "family", Family(w.family)), "weight", w.weight), "size", w.size)
Said(s) == [text |-> s.text, color |-> Colour(s.color), f |-> Fonts(s.font)]
StyleRow(r) ==
  [title |-> Said(r.title), sub |-> [i \in 1..Len(r.sub) |-> Said(r.sub[i])],
   badge |-> [i \in 1..Len(r.badge) |-> [text |-> r.badge[i].text, color |-> Colour(r.badge[i].color), bg |-> Colour(r.badge[i].bg)]],
   bg |-> Colour(r.bg), border |-> Colour(r.border)]
StylesOf(O) == [i \in 1..Len(O.boxes) |->
            [bg |-> Colour(O.boxes[i].bg), border |-> Colour(O.boxes[i].border),
             rows |-> [j \in 1..Len(O.boxes[i].rows) |-> StyleRow(O.boxes[i].rows[j])]]]
Rect(n) == n.at \o n.size
PlacesOf(O) == [i \in 1..Len(O.boxes) |->
            [rect |-> Rect(O.boxes[i]), rows |-> [j \in 1..Len(O.boxes[i].rows) |-> [rect |-> Rect(O.boxes[i].rows[j])]]]]
PathsOf(O) == [i \in 1..Len(O.edges) |-> O.edges[i].pts]

NoPlace(n) == n.at = <<>> \/ n.size = <<>>
MissingIn(O) == {<<i>> : i \in {x \in 1..Len(O.boxes) : NoPlace(O.boxes[x])}}
           \cup UNION {{<<i, j>> : j \in {x \in 1..Len(O.boxes[i].rows) : NoPlace(O.boxes[i].rows[x])}} : i \in 1..Len(O.boxes)}
           \cup {O.edges[i].a : i \in {x \in 1..Len(O.edges) : O.edges[x].pts = <<>>}}
=============================================================================
