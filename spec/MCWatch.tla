------------------------------ MODULE MCWatch -------------------------------
(***************************************************************************)
(* Every sequence of start, stop, reset and elapsed with up to N ticks of  *)
(* time; the ghost `ran` counts the ticks that passed between an effective *)
(* start and stop since the last reset.                                    *)
(***************************************************************************)
EXTENDS VarLife, TLC
CONSTANT N
VARIABLES s, now, ran, on
vars == <<s, now, ran, on>>
Plus(acc, since, t) == acc + t - since

Init == s = NewWatch(0) /\ now = 0 /\ ran = 0 /\ on = FALSE
Tick  == now < N /\ now' = now + 1 /\ ran' = (IF on THEN ran + 1 ELSE ran) /\ UNCHANGED <<s, on>>
Start == s' = WStart(s, now) /\ on' = TRUE /\ UNCHANGED <<now, ran>>
Stop  == s' = WStop(s, now, Plus) /\ on' = FALSE /\ UNCHANGED <<now, ran>>
Reset == s' = NewWatch(0) /\ on' = FALSE /\ ran' = 0 /\ now' = now
Ask   == UNCHANGED vars
Call(op) == CASE op = "tick" -> Tick [] op = "start" -> Start [] op = "stop" -> Stop [] op = "reset" -> Reset [] op = "elapsed" -> Ask
Key == ToString(<<s.run, s.acc, IF s.run THEN s.since ELSE 0, now>>)
Next == \E op \in {"tick", "start", "stop", "reset", "elapsed"} : Call(op) /\ PrintT("T|" \o Key \o "|" \o op \o " 0|" \o Key')
Begin == Init /\ PrintT("I|" \o Key)
Spec == Begin /\ [][Next]_vars
View == Key

ElapsedIsRunningTime == WTotal(s, now, Plus) = ran
RunningIsStarted == s.run = on
OnlyResetLowers == [][ran' < ran => s' = NewWatch(0)]_vars
=============================================================================
