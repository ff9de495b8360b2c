------------------------------ MODULE SeirenFront ------------------------------
(* The front end as a state machine: read the whole text token by token, then
   let the grammar consume the tokens.                                        *)
EXTENDS Naturals, Sequences, SeirenText, SeirenGrammar

VARIABLES
  src,    \* the text
  phase,  \* "lex" -> "parse" -> "done", or "murky"
  pos,    \* next character to read
  toks,   \* tokens read so far
  runs,   \* stray runs: start and the character where reading became impossible
  fatal,  \* <<>>, or a run behind which no token follows
  surs,   \* escapes which denote no character
  g,      \* configuration of the grammar
  ti,     \* number of tokens consumed by the grammar
  synd    \* <<>>, or the place of the syntax error
fvars == <<src, phase, pos, toks, runs, fatal, surs, g, ti, synd>>

FrontInit(text) ==
  /\ src = text /\ phase = "lex" /\ pos = 0 /\ toks = <<>> /\ runs = <<>> /\ fatal = <<>>
  /\ surs = <<>> /\ g = G0 /\ ti = 0 /\ synd = <<>>

Cur == TriviaEnd(src, pos)
KeepParse == UNCHANGED <<src, g, ti, synd>>

ReadToken ==
  /\ phase = "lex" /\ Cur < Len(src)
  /\ LET t == TokenAt(src, Cur) IN
     /\ t.ok
     /\ toks' = Append(toks, t) /\ pos' = t.e /\ surs' = surs \o t.sur
  /\ UNCHANGED <<phase, runs, fatal>> /\ KeepParse

SkipStray ==
  /\ phase = "lex" /\ Cur < Len(src)
  /\ LET p == Cur  bad == TokenAt(src, p)  q == NextReadable(src, p + 1) IN
     /\ ~bad.ok /\ q >= 0
     /\ LET t == TokenAt(src, q) IN
        /\ runs' = Append(runs, [s |-> p, fail |-> bad.fail])
        \* the token found takes the run in front of it along
        /\ toks' = Append(toks, [t EXCEPT !.s = p]) /\ pos' = t.e /\ surs' = surs \o t.sur
  /\ UNCHANGED <<phase, fatal>> /\ KeepParse

LexFail ==
  /\ phase = "lex" /\ Cur < Len(src)
  /\ ~TokenAt(src, Cur).ok /\ NextReadable(src, Cur + 1) = -1
  /\ fatal' = <<[s |-> Cur, fail |-> TokenAt(src, Cur).fail]>>
  /\ phase' = "done" /\ pos' = Len(src)
  /\ UNCHANGED <<toks, runs, surs>> /\ KeepParse

\* Behind an ill-formed quoted name inside a stray run everything is open,
\* except that the text is refused.
LexMurky ==
  /\ phase = "lex" /\ Cur < Len(src)
  /\ ~TokenAt(src, Cur).ok /\ NextReadable(src, Cur + 1) = -2
  /\ runs' = Append(runs, [s |-> Cur, fail |-> TokenAt(src, Cur).fail])
  /\ phase' = "murky" /\ pos' = Len(src)
  /\ UNCHANGED <<toks, fatal, surs>> /\ KeepParse

\* A text of nothing but trivia with a comment is refused while reading tokens.
LexNothing ==
  /\ phase = "lex" /\ Cur = Len(src) /\ toks = <<>> /\ HasComment(src, 0)
  /\ phase' = "done" /\ pos' = Len(src) /\ synd' = <<Len(src)>>
  /\ UNCHANGED <<src, toks, runs, fatal, surs, g, ti>>

LexEnd ==
  /\ phase = "lex" /\ Cur = Len(src) /\ (toks # <<>> \/ ~HasComment(src, 0))
  /\ phase' = "parse" /\ pos' = Len(src)
  /\ UNCHANGED <<toks, runs, fatal, surs>> /\ KeepParse

Shift ==
  /\ phase = "parse" /\ ti < Len(toks)
  /\ Viable(g, toks[ti + 1])
  /\ g' = Step(g, toks[ti + 1]) /\ ti' = ti + 1
  /\ UNCHANGED <<src, phase, pos, toks, runs, fatal, surs, synd>>

Reject ==
  /\ phase = "parse"
  /\ \/ ti < Len(toks) /\ ~Viable(g, toks[ti + 1]) /\ synd' = <<toks[ti + 1].s>>
     \/ ti = Len(toks) /\ ~Accepting(g) /\ synd' = <<Len(src)>>
  /\ phase' = "done"
  /\ UNCHANGED <<src, pos, toks, runs, fatal, surs, g, ti>>

Accept ==
  /\ phase = "parse" /\ ti = Len(toks) /\ Accepting(g)
  /\ phase' = "done"
  /\ UNCHANGED <<src, pos, toks, runs, fatal, surs, g, ti, synd>>

FrontNext == ReadToken \/ SkipStray \/ LexFail \/ LexMurky \/ LexNothing \/ LexEnd \/ Shift \/ Reject \/ Accept

-----------------------------------------------------------------------------
(* Results, meaningful when phase = "done"                                    *)
HasModule == fatal = <<>> /\ synd = <<>>
LexClean  == runs = <<>> /\ fatal = <<>> /\ surs = <<>>
Sentence  == HasModule /\ LexClean
Result    == IF HasModule THEN ModuleOf(g) ELSE [name |-> <<>>, entries |-> <<>>]

-----------------------------------------------------------------------------
(* The meaning-carrying part of a lexically clean text: the tokens without
   places, runs of separators made one.                                       *)
RECURSIVE LexAll(_, _)
LexAll(s, p) ==
  LET q == TriviaEnd(s, p) IN
  IF q >= Len(s) THEN <<>>
  ELSE LET t == TokenAt(s, q) IN IF t.ok THEN <<t>> \o LexAll(s, t.e) ELSE <<t>>
\* of a run of separators the last one stands for all
Canon(ts) ==
  LET kept == SelectSeq([i \in 1..Len(ts) |-> i],
                     LAMBDA i : ~Sep(ts[i].k) \/ i = Len(ts) \/ ~Sep(ts[i + 1].k))
  IN [j \in 1..Len(kept) |-> IF Sep(ts[kept[j]].k) THEN [k |-> "sep", v |-> <<>>]
                          ELSE [k |-> ts[kept[j]].k, v |-> ts[kept[j]].v]]
=============================================================================
