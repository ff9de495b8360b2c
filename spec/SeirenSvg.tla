------------------------------- MODULE SeirenSvg -------------------------------
(* Emitting the picture, one shape at a time.  A shape is
     [t, d (depth), n (numbers), s (words), f (fonts), text].
   The boxes to draw are given with their styles, their places as rectangles and
   the edges as lists of points.  A box is [bg, border, rows], a row
     [title, sub (none or one), badge (none or one), bg, border],
   a title or sub [text, color, f], a badge [text, color, bg]; colours are words,
   "" for none.                                                                  *)
EXTENDS SeirenRoute, TLC

VARIABLES
  sphase, \* "ground", "defs", "clip", "cliprect", "frame", "row", "edge", "drawn"
  sb, sr, \* box and row
  sp,     \* part of the row still to draw
  se,     \* edge
  sk,     \* shapes emitted
  shape   \* the last of them
svars == <<sphase, sb, sr, sp, se, sk, shape>>

Full == -888888888
NoFonts == [_ |-> ""]
Shape(t, d, n, s, text) == [t |-> t, d |-> d, n |-> n, s |-> s, f |-> NoFonts, text |-> text]
NoShape == Shape("", 0, [_ |-> 0], [_ |-> ""], <<>>)
\* a word that is there only if something is given
With(m, key, v) == IF v = "" THEN m ELSE (key :> v) @@ m

SvgInit == /\ sphase = "ground" /\ sb = 0 /\ sr = 0 /\ sp = <<>> /\ se = 0 /\ sk = 0 /\ shape = NoShape

-----------------------------------------------------------------------------
(* text *)
\* characters XML 1.0 cannot represent are replaced
XmlChar(c) == IF c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111 THEN c ELSE 65533
Literal(s) == [i \in 1..Len(s) |-> XmlChar(s[i])]
White == {32, 9, 10, 13}
RECURSIVE Collapse(_, _, _)
\* runs of white space count as one blank, at the ends as nothing
Collapse(s, i, acc) ==
  IF i > Len(s) THEN (IF acc # <<>> /\ acc[Len(acc)] = 32 THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc)
  ELSE Collapse(s, i + 1,
         IF s[i] \in White
         THEN (IF acc = <<>> \/ acc[Len(acc)] = 32 THEN acc ELSE Append(acc, 32))
         ELSE Append(acc, s[i]))
Shown(s) == IF \E i \in 1..Len(s) : s[i] \in White THEN Collapse(s, 1, <<>>) ELSE s

Cp == [int |-> <<105, 110, 116>>, uuid |-> <<117, 117, 105, 100>>, text |-> <<116, 101, 120, 116>>,
       timestamp |-> <<116, 105, 109, 101, 115, 116, 97, 109, 112>>, PK |-> <<80, 75>>, FK |-> <<70, 75>>]

(* colours; words are names or #rrggbb *)
Ground == "#1c1c1c"
EdgeColour == "#888888"
Round == 6 * Unit
Pad == 12 * Unit

(* the styles of a declared box: rows of names, types and keys (SeirenDoc) *)
TypeColour(t) == CASE t \in {"int", "uuid"} -> "#ecc700" [] t = "text" -> "#d66905" [] t = "timestamp" -> "#06b697"
Span(text, colour) == [text |-> text, color |-> colour, f |-> NoFonts]
RowStyle(row, j) ==
  [title |-> Span(row.n, "#ffffff"),
   sub |-> IF row.t = "" THEN <<>> ELSE <<Span(Cp[row.t], TypeColour(row.t))>>,
   badge |-> IF row.k = "" THEN <<>>
             ELSE <<[text |-> Cp[row.k], color |-> IF row.k = "PK" THEN "#ffffff" ELSE "#1170fb",
                     bg |-> IF row.k = "PK" THEN "#373737" ELSE "#202937"]>>,
   bg |-> IF j = 1 THEN "#494949" ELSE "",
   border |-> "#494949"]
BoxStyle(rows) == [bg |-> "#212121", border |-> "#494949", rows |-> [j \in 1..Len(rows) |-> RowStyle(rows[j], j)]]

(* shapes *)
GroundShape == Shape("rect", 1, [_ |-> 0, width |-> Full, height |-> Full], [_ |-> "", fill |-> Ground], <<>>)
DefsShape == Shape("defs", 1, [_ |-> 0], [_ |-> ""], <<>>)
ClipShape(i) == Shape("clipPath", 2, [_ |-> 0, id |-> i], [_ |-> ""], <<>>)
RoundArea(r) == [_ |-> 0, x |-> r[1], y |-> r[2], width |-> r[3], height |-> r[4], rx |-> Round, ry |-> Round]
ClipRectShape(r) == Shape("rect", 3, RoundArea(r), [_ |-> ""], <<>>)
FrameShape(r, b) == Shape("rect", 1, RoundArea(r), With(With([_ |-> ""], "fill", b.bg), "stroke", b.border), <<>>)
FillShape(r, i, colour) ==
  Shape("rect", 1, [_ |-> 0, x |-> r[1], y |-> r[2], width |-> r[3], height |-> r[4], clip |-> i],
        [_ |-> "", fill |-> colour], <<>>)
RuleShape(r, colour) ==
  Shape("line", 1, [_ |-> 0, x1 |-> X1(r), x2 |-> X2(r), y1 |-> Y1(r), y2 |-> Y1(r), sw |-> Unit],
        [_ |-> "", stroke |-> colour], <<>>)
TextShape(x, y, anchor, colour, text) ==
  Shape("text", 1, [_ |-> 0, x |-> x, y |-> y],
        With([_ |-> "", anchor |-> anchor, base |-> "middle"], "fill", colour), Shown(Literal(text)))
TitleShape(r, s) == [TextShape(X1(r) + Pad, MidY(r), "start", s.color, s.text) EXCEPT !.f = s.f]
SubShape(r, s) == [TextShape(X1(r) + 4 * (r[3] \div 5), MidY(r), "end", s.color, s.text) EXCEPT !.f = s.f]
BadgeRadius(r) == r[4] \div 2 - Round
BadgeX(r) == X2(r) - Pad - BadgeRadius(r)
BadgeShape(r, colour) == Shape("circle", 1, [_ |-> 0, cx |-> BadgeX(r), cy |-> MidY(r), r |-> BadgeRadius(r)],
                               [_ |-> "", fill |-> colour], <<>>)
KeyShape(r, s) == TextShape(BadgeX(r), MidY(r), "middle", s.color, s.text)
EndShape(pt) == Shape("circle", 1, [_ |-> 0, cx |-> pt[1], cy |-> pt[2], r |-> 4 * Unit, sw |-> 12],
                      [_ |-> "", fill |-> Ground, stroke |-> EdgeColour], <<>>)
PathShape == Shape("path", 1, [_ |-> 0, sw |-> 12], [_ |-> "", fill |-> "transparent", stroke |-> EdgeColour], <<>>)

\* parts of a row in drawing order
Parts(row, j) == (IF row.bg # "" THEN <<"fill">> ELSE <<>>)
                 \o (IF j > 1 /\ row.border # "" THEN <<"rule">> ELSE <<>>)
                 \o <<"title">>
                 \o (IF row.sub # <<>> THEN <<"sub">> ELSE <<>>)
                 \o (IF row.badge # <<>> /\ row.badge[1].bg # "" THEN <<"badge">> ELSE <<>>)
                 \o (IF row.badge # <<>> THEN <<"key">> ELSE <<>>)
PartShape(p, row, r, i) ==
  CASE p = "fill" -> FillShape(r, i, row.bg)
    [] p = "rule" -> RuleShape(r, row.border)
    [] p = "title" -> TitleShape(r, row.title)
    [] p = "sub" -> SubShape(r, row.sub[1])
    [] p = "badge" -> BadgeShape(r, row.badge[1].bg)
    [] p = "key" -> KeyShape(r, row.badge[1])

-----------------------------------------------------------------------------
Put(s) == shape' = s /\ sk' = sk + 1
\* what comes after the clip paths, a box, a row
ToBox(bxs, i) == IF i <= Len(bxs) THEN sphase' = "frame" /\ sb' = i ELSE sphase' = "edge" /\ sb' = 0
SvgNext(bxs, plc, rts) ==
  \/ /\ sphase = "ground" /\ Put(GroundShape) /\ sphase' = "defs" /\ UNCHANGED <<sb, sr, sp, se>>
  \/ /\ sphase = "defs" /\ Put(DefsShape)
     /\ IF bxs = <<>> THEN ToBox(bxs, 1) ELSE (sphase' = "clip" /\ sb' = 1)
     /\ UNCHANGED <<sr, sp, se>>
  \/ /\ sphase = "clip" /\ Put(ClipShape(sb)) /\ sphase' = "cliprect" /\ UNCHANGED <<sb, sr, sp, se>>
  \/ /\ sphase = "cliprect" /\ Put(ClipRectShape(plc[sb].rect))
     /\ IF sb < Len(bxs) THEN (sphase' = "clip" /\ sb' = sb + 1) ELSE ToBox(bxs, 1)
     /\ UNCHANGED <<sr, sp, se>>
  \/ /\ sphase = "frame" /\ Put(FrameShape(plc[sb].rect, bxs[sb]))
     /\ IF bxs[sb].rows = <<>> THEN ToBox(bxs, sb + 1) /\ UNCHANGED <<sr, sp>>
        ELSE sphase' = "row" /\ sr' = 1 /\ sp' = Parts(bxs[sb].rows[1], 1) /\ UNCHANGED sb
     /\ UNCHANGED se
  \/ /\ sphase = "row" /\ Put(PartShape(Head(sp), bxs[sb].rows[sr], plc[sb].rows[sr].rect, sb))
     /\ IF Len(sp) > 1 THEN sp' = Tail(sp) /\ UNCHANGED <<sphase, sb, sr>>
        ELSE IF sr < Len(bxs[sb].rows)
             THEN sr' = sr + 1 /\ sp' = Parts(bxs[sb].rows[sr + 1], sr + 1) /\ UNCHANGED <<sphase, sb>>
             ELSE sr' = 0 /\ sp' = <<>> /\ ToBox(bxs, sb + 1)
     /\ UNCHANGED se
  \/ /\ sphase = "edge" /\ se < Len(rts)
     /\ Put(PathShape) /\ sphase' = "start" /\ se' = se + 1 /\ UNCHANGED <<sb, sr, sp>>
  \/ /\ sphase = "start" /\ Put(EndShape(rts[se][1])) /\ sphase' = "end" /\ UNCHANGED <<sb, sr, sp, se>>
  \/ /\ sphase = "end" /\ Put(EndShape(rts[se][Len(rts[se])])) /\ sphase' = "edge" /\ UNCHANGED <<sb, sr, sp, se>>
  \/ /\ sphase = "edge" /\ se = Len(rts) /\ sphase' = "drawn" /\ UNCHANGED <<sb, sr, sp, se, sk, shape>>

\* e: an element read back
IsShape(e, s) == e.t = s.t /\ e.d = s.d /\ e.n = s.n /\ e.s = s.s /\ Shown(e.text) = s.text /\ e.tail = 0

-----------------------------------------------------------------------------
(* C15: the drawn line of a route *)
Turns(pts) == {i \in 2..(Len(pts) - 1) : Dir(pts[i - 1], pts[i]) # Dir(pts[i], pts[i + 1])}
Toward(p, d, r) == CASE d = "U" -> <<p[1], p[2] - r>> [] d = "D" -> <<p[1], p[2] + r>>
                     [] d = "L" -> <<p[1] - r, p[2]>> [] d = "R" -> <<p[1] + r, p[2]>>

RECURSIVE LineHolds(_, _, _, _, _, _)
\* cmds: the commands from the k-th on draw the route from its i-th point on; pen is where the
\* line is, limit the corner of the last curve (its first point: the start)
LineHolds(cmds, k, pts, i, pen, corner) ==
  LET end(j) == cmds[k].c = j
      Straight == i \in 2..(Len(pts) - 1) /\ Dir(pts[i - 1], pts[i]) = Dir(pts[i], pts[i + 1])
  IN
  IF i = Len(pts)
  THEN k = Len(cmds) /\ end("L") /\ cmds[k].p = pts[i] /\ Dir(pen, pts[i]) = Dir(pts[i - 1], pts[i])
  ELSE IF Straight
  THEN \* drawn as a point of its own or not
       \/ k <= Len(cmds) /\ end("L") /\ cmds[k].p = pts[i] /\ Dir(pen, pts[i]) = Dir(pts[i - 1], pts[i])
          /\ LineHolds(cmds, k + 1, pts, i + 1, pts[i], corner)
       \/ LineHolds(cmds, k, pts, i + 1, pen, corner)
  ELSE \* a line to the start of the curve (unless the pen is there already), then the curve
       LET d1 == Dir(pts[i - 1], pts[i])
           d2 == Dir(pts[i], pts[i + 1])
           drawn == k <= Len(cmds) /\ end("L")
           q == IF drawn THEN k + 1 ELSE k
           from == IF drawn THEN <<cmds[k].p[1], cmds[k].p[2]>> ELSE pen
           r == Dist(from, pts[i])
       IN /\ q <= Len(cmds) /\ cmds[q].c = "Q"
          /\ r > 0 /\ r <= Round /\ 2 * r <= Dist(pts[i - 1], pts[i]) /\ 2 * r <= Dist(pts[i], pts[i + 1])
          /\ from = Toward(pts[i], Opposite(d1), r)
          /\ drawn => (pen = from \/ Dir(pen, from) = d1)
          /\ cmds[q].p = pts[i] \o Toward(pts[i], d2, r)
          /\ LineHolds(cmds, q + 1, pts, i + 1, Toward(pts[i], d2, r), i)

Drawn(cmds, pts) ==
  /\ Len(cmds) >= 2 /\ cmds[1].c = "M" /\ cmds[1].p = pts[1]
  /\ LineHolds(cmds, 2, pts, 2, pts[1], 1)
=============================================================================
