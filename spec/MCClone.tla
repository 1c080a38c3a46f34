------------------------------ MODULE MCClone -------------------------------
(***************************************************************************)
(* Variables that are cloned, changed, made constant and destroyed in any  *)
(* order.  A variable's value is abstracted to the operations it went      *)
(* through ("a", "b": two fixed changes, "s": a set, which forgets the     *)
(* past): variables with equal histories must be equal, and nothing that   *)
(* happens to one may be seen in another.                                  *)
(***************************************************************************)
EXTENDS VarLife, FiniteSets, TLC
CONSTANTS Slots, Depth
VARIABLES V, h          \* V: the variables alive; h: ghost, what was done to the object behind each slot
vars == <<V, h>>

Init == V = (0 :> [ops |-> <<>>, c |-> FALSE]) /\ h = (0 :> <<>>)
Changed(i, x) == IF x = "s" THEN <<"s">> ELSE Append(V[i].ops, x)
Change(i, x) == /\ i \in DOMAIN V /\ Len(Changed(i, x)) <= Depth
                /\ V' = [V EXCEPT ![i].ops = Changed(i, x)] /\ h' = [h EXCEPT ![i] = Append(@, x)]
Flip(i) == i \in DOMAIN V /\ V' = [V EXCEPT ![i].c = ~@] /\ h' = h
Clone(i, j) == i \in DOMAIN V /\ j \notin DOMAIN V /\ V' = Cloned(V, i, j) /\ h' = Cloned(h, i, j)
Drop(i) == i \in DOMAIN V /\ Cardinality(DOMAIN V) > 1 /\ V' = Dropped(V, i) /\ h' = Dropped(h, i)
Call(op) == CASE op[1] = "clone" -> Clone(op[2], op[3]) [] op[1] = "drop" -> Drop(op[2]) [] op[1] = "flip" -> Flip(op[2])
              [] OTHER -> Change(op[2], op[1])
Calls == { <<x, i, 0>> : x \in {"a", "b", "s", "drop", "flip"}, i \in Slots } \cup { <<"clone", i, j>> : i, j \in Slots }
Key == ToString([k \in 1..Cardinality(Slots) |-> LET i == k - 1 IN IF i \in DOMAIN V THEN <<V[i].ops, V[i].c>> ELSE <<>>])
Next == \E op \in Calls : Call(op) /\ PrintT("T|" \o Key \o "|" \o op[1] \o " " \o ToString(op[2]) \o " " \o ToString(op[3]) \o "|" \o Key')
Begin == Init /\ PrintT("I|" \o Key)
Spec == Begin /\ [][Next]_vars
View == Key

LastSet(q) == IF \E i \in 1..Len(q) : q[i] = "s" THEN LET k == CHOOSE i \in 1..Len(q) : q[i] = "s" /\ \A j \in (i + 1)..Len(q) : q[j] # "s" IN SubSeq(q, k, Len(q)) ELSE q
\* the value of a variable is determined by its own history
OwnHistory == \A i \in DOMAIN V : V[i].ops = LastSet(h[i])
\* an operation on one variable changes no other
Independence == [][Cardinality({ i \in DOMAIN V \cap DOMAIN V' : V'[i] # V[i] }) <= 1]_vars
=============================================================================
