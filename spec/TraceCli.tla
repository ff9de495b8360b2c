-------------------------------- MODULE TraceCli --------------------------------
(* Recorded runs of the real command.                                            *)
EXTENDS SeirenCli, Integers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE c
O == Trace[c]
Init == \E i \in 1..Len(Trace) :
  c = i /\ CliInit([readable |-> Trace[i].readable, diags |-> Trace[i].diags, some |-> Trace[i].some, total |-> Trace[i].total], Trace[i].cap)
Next == CliNext /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, cvars>>
Exited == cphase = "exit"
\* the library itself fails on this text: not judged here (C05)
C21 == (Exited /\ O.libok) =>
  /\ O.prefix   \* what was written is the beginning of the library's picture
  /\ status = "failure" => O.status # 0
  /\ status = "ok" => O.status = 0
  /\ status # "failure" => O.out = out
  /\ status = "failure" => O.out <= out
  /\ inp.readable => O.reports = reports
  /\ status # "failure" => (O.status >= 0 /\ O.status # 101)   \* reports are all there is: no abort
  /\ (inp.readable /\ reports = 0 /\ status # "failure") => O.stderr = 0
\* C05: the command ends by itself, and not in a panic, when nothing is wrong with source and output
C05 == (Exited /\ inp.readable /\ cap >= inp.total) => O.status \in {0, 1}
\* C25: the reports stand for the diagnostics, in order; reporting is the k-th step
Told(k) ==
  LET r == O.told[k]
      d == O.given[k]
  IN /\ r.file = O.file
     /\ <<r.line, r.col>> \in PlacesOf(O.src, d.s)
     /\ d.own # "" => r.msg = d.own   \* a message of its own
     /\ d.own = "" => (r.atend <=> d.s = Len(O.src))
     /\ {r.exp[i] : i \in 1..Len(r.exp)} = {d.exp[i] : i \in 1..Len(d.exp)}
     /\ Len(r.exp) = Len(d.exp)
C25 == (O.libok /\ inp.readable) =>
  /\ (cphase = "report" /\ reports > 0) => (reports <= Len(O.told) /\ Told(reports))
  /\ Exited => Len(O.told) = reports
=============================================================================
