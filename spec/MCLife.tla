------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* Every history of two optimizers that share one graph: setup, runs,      *)
(* covariances, and changes of the graph in between.  Uses the operators   *)
(* of GraphCore and OptCore that judge recorded traces; TLC checks that    *)
(* they imply what P25 promises, stated over the history, and prints the   *)
(* transitions that are replayed into the library.                         *)
(***************************************************************************)
EXTENDS GraphCore, OptCore, TLC
CONSTANTS MaxGrow, Opts

VARIABLES g,      \* the graph: only fin, stale and rev matter here; vs counts the variables added
          o,      \* optimizer -> life
          h       \* ghost, optimizer -> what has happened, in the words of P25
vars == <<g, o, h>>

NoHistory == [run |-> FALSE, prep |-> FALSE, same |-> FALSE]
Init == /\ g = Finalized(AddVariable(EmptyGraph, 0)) /\ o = [i \in Opts |-> NewLife] /\ h = [i \in Opts |-> NoHistory]

Changed == h' = [i \in Opts |-> [h[i] EXCEPT !.same = FALSE]]
Grow  == Len(g.vs) <= MaxGrow /\ g' = AddVariable(g, Len(g.vs)) /\ Changed /\ o' = o
Fin   == g' = Finalized(g) /\ Changed /\ o' = o
Touch == UNCHANGED vars                                 \* the variables' values change: what was prepared stays
Setup(i) == o' = [o EXCEPT ![i] = LifeSetup(@)] /\ h' = [h EXCEPT ![i] = NoHistory] /\ g' = g
Run(i) == /\ g' = g
          /\ IF CanRun(o[i], g) THEN o' = [o EXCEPT ![i] = LifeRan(@)] /\ h' = [h EXCEPT ![i] = [run |-> TRUE, prep |-> FALSE, same |-> FALSE]]
             ELSE UNCHANGED <<o, h>>                    \* refused
Prep(i) == /\ g' = g
           /\ IF o[i].st = "none" \/ CovCurrent(o[i], g) \/ ~CovReady(o[i], g) THEN UNCHANGED <<o, h>>
              ELSE o' = [o EXCEPT ![i] = LifePrepared(@, g)] /\ h' = [h EXCEPT ![i].prep = TRUE, ![i].same = TRUE]
Ask == UNCHANGED vars

Call(op) == CASE op[1] = "grow" -> Grow [] op[1] = "fin" -> Fin [] op[1] = "touch" -> Touch
              [] op[1] = "setup" -> Setup(op[2]) [] op[1] = "run" -> Run(op[2])
              [] op[1] \in {"prep", "pcov"} -> Prep(op[2]) [] OTHER -> Ask
Calls == { <<"grow", 0>>, <<"fin", 0>>, <<"touch", 0>> } \cup
         { <<x, i>> : x \in {"setup", "run", "prep", "pcov", "cov", "covall"}, i \in Opts }
One(i) == o[i].st \o "," \o o[i].cov \o (IF CovCurrent(o[i], g) THEN "," ELSE "!") 
Key == ToString(Len(g.vs)) \o (IF g.fin THEN "F" ELSE "-") \o ToString([i \in Opts |-> One(i)])
Next == \E op \in Calls : Call(op) /\ PrintT("T|" \o Key \o "|" \o op[1] \o " " \o ToString(op[2]) \o "|" \o Key')
Start == Init /\ PrintT("I|" \o Key)
Spec == Start /\ [][Next]_vars
View == Key

\* P25: valid only if a run completed and covariances were prepared since the last setup, run or structural change
ServableMeansPrepared == \A i \in Opts : CovServable(o[i], g) => h[i].run /\ h[i].prep /\ h[i].same /\ g.fin
\* and nothing else stands in the way
PreparedIsServable == \A i \in Opts : h[i].run /\ h[i].prep /\ h[i].same /\ g.fin => CovServable(o[i], g)
\* what one optimizer does leaves the other alone
Independent == [][\A i \in Opts : (\E j \in Opts \ {i} : o'[j] # o[j]) => o'[i] = o[i]]_vars
=============================================================================
