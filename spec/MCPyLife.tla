------------------------------ MODULE MCPyLife ------------------------------
(***************************************************************************)
(* Every order in which a program can take, use and drop the handles of    *)
(* PyLife, with at most MaxDerived derived handles at a time.              *)
(***************************************************************************)
EXTENDS PyLife, TLC
CONSTANTS MaxDerived, DerivedUsed, BaseUsed
VARIABLES s
Key == ToString(<<s.held, s.a, s.b, s.og, s.ran, { <<x, s.snap[x]>> : x \in DOMAIN s.snap }>>)
Init == s = [NewProblem EXCEPT !.held = BaseUsed]
Allowed(op) == op[1] = "take" => op[2] \in DerivedUsed /\ Cardinality((s.held \cap Derived) \cup {op[2]}) <= MaxDerived
Next == \E op \in Ops : /\ Enabled(s, op) /\ Allowed(op) /\ s' = Apply(s, op)
                        /\ PrintT("T|" \o Key \o "|" \o op[1] \o " " \o op[2] \o "|" \o Key')
Begin == Init /\ PrintT("I|" \o Key)
Spec == Begin /\ [][Next]_s
View == Key

TypeOK == s.held \subseteq Base \cup Derived /\ DOMAIN s.snap \subseteq Derived /\ DOMAIN s.snap = s.held \cap Derived
\* a handle that is held always has something definite to show, whatever else is held
Definite == \A x \in s.held : MayShow(s, x) # {} /\ Cardinality(MayShow(s, x)) <= 2
\* dropping (or taking) a handle is invisible to all others
DropInvisible == [][(\E x \in s.held : s' = Drop(s, x)) => \A y \in s.held \cap s'.held : MayShow(s', y) = MayShow(s, y)]_s
\* what was taken as a copy never changes
CopiesKeep == [][\A y \in {"R", "J", "C", "N"} \cap s.held \cap s'.held : s'.snap[y] = s.snap[y] \/ s' = Take(s, y)]_s
=============================================================================
