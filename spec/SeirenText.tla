------------------------------ MODULE SeirenText ------------------------------
(* Characters to tokens.  A text is a sequence of code points; positions count
   characters from 0.  Reading a token at a position is a function; the actions
   which read a whole text (one per token) are in SeirenFront.               *)
EXTENDS Naturals, Integers, Sequences

At(s, p) == IF p < Len(s) THEN s[p + 1] ELSE -1

SP == 32   TAB == 9   LF == 10   CR == 13   BQ == 96   BS == 92   SLASH == 47

IsLetter(c) == c \in 65..90 \/ c \in 97..122
IsDigit(c)  == c \in 48..57
IsStart(c)  == c = 95 \/ IsLetter(c)
IsCont(c)   == IsStart(c) \/ IsDigit(c)
HexVal(c)   == IF c \in 48..57 THEN c - 48
               ELSE IF c \in 97..102 THEN c - 87
               ELSE IF c \in 65..70 THEN c - 55 ELSE -1

\* "erd" "int" "uuid" "text" "timestamp" "PK" "FK"
Keyword(w) ==
  CASE w = <<101,114,100>> -> "erd"
    [] w = <<105,110,116>> -> "int"
    [] w = <<117,117,105,100>> -> "uuid"
    [] w = <<116,101,120,116>> -> "text"
    [] w = <<116,105,109,101,115,116,97,109,112>> -> "timestamp"
    [] w = <<80,75>> -> "PK"
    [] w = <<70,75>> -> "FK"
    [] OTHER -> "ident"
Types == {"int", "uuid", "text", "timestamp"}
Keys  == {"PK", "FK"}

-----------------------------------------------------------------------------
(* Trivia: blanks, tabs and comments up to the end of the line               *)
\* (long runs are taken in steps of Jump: recursion that is too deep is slow)
Jump == 48
Leap == 2000
RECURSIVE BlankEnd(_, _)
BlankEnd(s, p) == IF At(s, p) \notin {SP, TAB} THEN p
                  ELSE IF \A q \in p..(p + Leap) : At(s, q) \in {SP, TAB} THEN BlankEnd(s, p + Leap)
                  ELSE IF \A q \in p..(p + Jump) : At(s, q) \in {SP, TAB} THEN BlankEnd(s, p + Jump)
                  ELSE BlankEnd(s, p + 1)
RECURSIVE LineEnd(_, _)
LineEnd(s, p) == IF At(s, p) \in {LF, -1} THEN p
                 ELSE IF \A q \in p..(p + Leap) : At(s, q) \notin {LF, -1} THEN LineEnd(s, p + Leap)
                 ELSE IF \A q \in p..(p + Jump) : At(s, q) \notin {LF, -1} THEN LineEnd(s, p + Jump)
                 ELSE LineEnd(s, p + 1)

StartsComment(s, p) == At(s, p) = SLASH /\ At(s, p + 1) = SLASH
RECURSIVE TriviaEnd(_, _)
TriviaEnd(s, p) ==
  LET q == BlankEnd(s, p)
  IN  IF StartsComment(s, q) THEN TriviaEnd(s, LineEnd(s, q + 2)) ELSE q
RECURSIVE HasComment(_, _)
HasComment(s, p) == StartsComment(s, BlankEnd(s, p))

-----------------------------------------------------------------------------
(* One token.  ok: whether a token can be read at p; e: where it ends;
   fail: otherwise the character at which reading became impossible;
   sur: the \uXXXX escapes which denote no character (start and end)         *)
Tok(k, v, s, e, sur) == [ok |-> TRUE, k |-> k, v |-> v, s |-> s, e |-> e, sur |-> sur, fail |-> -1]
NoTok(fail) == [ok |-> FALSE, k |-> "", v |-> <<>>, s |-> -1, e |-> -1, sur |-> <<>>, fail |-> fail]

RECURSIVE WordEnd(_, _)
WordEnd(s, p) == IF ~IsCont(At(s, p)) THEN p
                 ELSE IF \A q \in p..(p + Leap) : IsCont(At(s, q)) THEN WordEnd(s, p + Leap)
                 ELSE IF \A q \in p..(p + Jump) : IsCont(At(s, q)) THEN WordEnd(s, p + Jump)
                 ELSE WordEnd(s, p + 1)

SimpleEscape(c) ==
  CASE c = 92 -> 92 [] c = 47 -> 47 [] c = 34 -> 34 [] c = 96 -> 96
    [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
    [] OTHER -> -1

RECURSIVE HexEnd(_, _, _)
HexEnd(s, p, n) == IF n = 0 \/ HexVal(At(s, p)) < 0 THEN p ELSE HexEnd(s, p + 1, n - 1)
Hex4(s, p) == 4096 * HexVal(At(s, p)) + 256 * HexVal(At(s, p + 1))
              + 16 * HexVal(At(s, p + 2)) + HexVal(At(s, p + 3))
IsSurrogate(c) == c \in 55296..57343

\* from behind the opening quote at b
RECURSIVE Quoted(_, _, _, _, _)
Quoted(s, b, p, acc, sur) ==
  LET c == At(s, p) d == At(s, p + 1) IN
  CASE c = -1 -> NoTok(p)
    [] c = BQ -> Tok("ident", acc, b, p + 1, sur)
    [] c = BS /\ SimpleEscape(d) >= 0 -> Quoted(s, b, p + 2, Append(acc, SimpleEscape(d)), sur)
    [] c = BS /\ d = 117 ->
         LET h == HexEnd(s, p + 2, 4) IN
         IF h < p + 6 THEN NoTok(h)
         ELSE IF IsSurrogate(Hex4(s, p + 2))
              THEN Quoted(s, b, h, Append(acc, 65533), Append(sur, [s |-> p + 2, e |-> h]))
              ELSE Quoted(s, b, h, Append(acc, Hex4(s, p + 2)), sur)
    [] c = BS -> NoTok(p + 1)
    [] OTHER -> IF \A q \in p..(p + Leap) : At(s, q) \notin {-1, BQ, BS} THEN Quoted(s, b, p + Leap, acc \o SubSeq(s, p + 1, p + Leap), sur)
                ELSE IF \A q \in p..(p + Jump) : At(s, q) \notin {-1, BQ, BS} THEN Quoted(s, b, p + Jump, acc \o SubSeq(s, p + 1, p + Jump), sur)
                ELSE Quoted(s, b, p + 1, Append(acc, c), sur)

CtrlName(c) == CASE c = 123 -> "{" [] c = 125 -> "}" [] c = 59 -> ";" [] c = 46 -> "." [] OTHER -> ""

TokenAt(s, p) ==
  LET c == At(s, p) IN
  CASE c = 111 /\ At(s, p + 1) = 45 /\ At(s, p + 2) = 45 /\ At(s, p + 3) = 111
         -> Tok("edge", <<>>, p, p + 4, <<>>)
    [] IsStart(c) -> LET e == WordEnd(s, p) w == SubSeq(s, p + 1, e)
                     IN  Tok(Keyword(w), IF Keyword(w) = "ident" THEN w ELSE <<>>, p, e, <<>>)
    [] c = BQ -> Quoted(s, p, p + 1, <<>>, <<>>)
    [] CtrlName(c) # "" -> Tok(CtrlName(c), <<>>, p, p + 1, <<>>)
    [] c = LF -> Tok("nl", <<>>, p, p + 1, <<>>)
    [] c = CR /\ At(s, p + 1) = LF -> Tok("nl", <<>>, p, p + 2, <<>>)
    [] c = CR -> NoTok(p + 1)
    [] OTHER -> NoTok(p)

(* The next place from p on, and before the end, where a token can be read
   (blanks and comments are not skipped while looking); -1 if there is none,
   -2 if an ill-formed quoted name is met while looking: what is made of the
   text behind it is left open.                                              *)
RECURSIVE NextReadable(_, _)
NextReadable(s, p) ==
  IF p >= Len(s) THEN -1
  ELSE IF TokenAt(s, p).ok THEN p
  ELSE IF At(s, p) = BQ THEN -2
  ELSE IF \A q \in p..(p + Leap) : q < Len(s) /\ At(s, q) # BQ /\ ~TokenAt(s, q).ok THEN NextReadable(s, p + Leap)
  ELSE IF \A q \in p..(p + Jump) : q < Len(s) /\ At(s, q) # BQ /\ ~TokenAt(s, q).ok THEN NextReadable(s, p + Jump)
  ELSE NextReadable(s, p + 1)
=============================================================================
