------------------------------- MODULE SeirenCli -------------------------------
(* The command: read a source, parse it, report the diagnostics, draw the module
   if there is one.  The output takes at most `cap` bytes.                      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
  inp,     \* [readable, diags, some, total]: the source and what the library makes of it
  cap,     \* bytes the output takes
  cphase,  \* "start", "report", "draw", "exit"
  reports, \* reports on standard error
  out,     \* bytes on standard output
  status   \* "none", "ok" or "failure"
cvars == <<inp, cap, cphase, reports, out, status>>
CliInit(i, n) == inp = i /\ cap = n /\ cphase = "start" /\ reports = 0 /\ out = 0 /\ status = "none"
Unreadable == cphase = "start" /\ ~inp.readable /\ cphase' = "exit" /\ status' = "failure" /\ UNCHANGED <<inp, cap, reports, out>>
Parse == cphase = "start" /\ inp.readable /\ cphase' = "report" /\ UNCHANGED <<inp, cap, reports, out, status>>
Report == cphase = "report" /\ reports < inp.diags /\ reports' = reports + 1 /\ UNCHANGED <<inp, cap, cphase, out, status>>
Reported == cphase = "report" /\ reports = inp.diags /\ cphase' = "draw" /\ UNCHANGED <<inp, cap, reports, out, status>>
Draw ==
  /\ cphase = "draw" /\ cphase' = "exit"
  /\ IF ~inp.some THEN out' = 0 /\ status' = "any"
     ELSE IF inp.total <= cap THEN out' = inp.total /\ status' = (IF inp.diags = 0 THEN "ok" ELSE "any")
     ELSE out' = cap /\ status' = "failure"
  /\ UNCHANGED <<inp, cap, reports>>
CliNext == Unreadable \/ Parse \/ Report \/ Reported \/ Draw
\* what a report says: the place of a diagnostic as line and column, both from 1 (columns count
\* characters, lines end in a line feed); `text` is the source
Breaks(text, off) == {i \in 1..off : text[i] = 10}
LineOf(text, off) == Cardinality(Breaks(text, off)) + 1
RECURSIVE LastBreak(_, _)   \* 0: there is none (long lines are taken in steps: deep recursion is slow)
LastBreak(text, off) ==
  IF off = 0 THEN 0 ELSE IF text[off] = 10 THEN off
  ELSE IF off > 2000 /\ \A q \in (off - 1999)..off : text[q] # 10 THEN LastBreak(text, off - 2000)
  ELSE IF off > 50 /\ \A q \in (off - 49)..off : text[q] # 10 THEN LastBreak(text, off - 50)
  ELSE LastBreak(text, off - 1)
ColumnOf(text, off) == off - LastBreak(text, off) + 1
\* the end of a text that ends in a line break may count as on the line before
PlacesOf(text, off) ==
  {<<LineOf(text, off), ColumnOf(text, off)>>}
  \cup (IF off > 0 /\ off = Len(text) /\ text[off] = 10
        THEN {<<LineOf(text, off - 1), ColumnOf(text, off - 1) + 1>>} ELSE {})
\* success means that all of it was delivered
Delivered == status = "ok" => (out = inp.total /\ reports = 0)
NothingOfNothing == (cphase = "exit" /\ ~(inp.readable /\ inp.some)) => out = 0
=============================================================================
