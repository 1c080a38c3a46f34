------------------------------ MODULE VarLife -------------------------------
(***************************************************************************)
(* The lives of two small things, independent of what their values are:    *)
(* stopwatches (P28) and variables that are cloned (P09).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ------------------------------------------------------------- stopwatches
\* zero: no time; Plus(acc, since, t): acc and the time from since to t
NewWatch(zero) == [run |-> FALSE, acc |-> zero, since |-> zero]
WTotal(s, t, Plus(_, _, _)) == IF s.run THEN Plus(s.acc, s.since, t) ELSE s.acc
WStart(s, t) == IF s.run THEN s ELSE [s EXCEPT !.run = TRUE, !.since = t]
WStop(s, t, Plus(_, _, _)) == IF s.run THEN [s EXCEPT !.run = FALSE, !.acc = WTotal(s, t, Plus)] ELSE s

\* --------------------------------------------------------------- variables
\* V: slot -> what there is to know about the variable living there
Cloned(V, from, to) == [s \in DOMAIN V \cup {to} |-> IF s = to THEN V[from] ELSE V[s]]
Dropped(V, s) == [t \in DOMAIN V \ {s} |-> V[t]]
=============================================================================
