------------------------------ MODULE JPyLife -------------------------------
(***************************************************************************)
(* Replays what a Python program did with its handles (P30): the state is  *)
(* that of PyLife, and every handle still held must show one of the values *)
(* the specification allows it to show.                                    *)
(***************************************************************************)
EXTENDS PyLife, Factors, TLC, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Ck(cond, text) == IF cond THEN {} ELSE {text}
Str(x) == ToString(x)

\* ---------------------------------------------------------- what is shown
\* d: a0, b0, a value to set, the optimum of A, K
P2(d, i) == SubSeq(d, 2 * i + 1, 2 * i + 2)
KVal(d) == P2(d, 4)
AVal(d, l) == CASE l[1] = "i" -> P2(d, 0) [] l[1] = "s" -> P2(d, 2) [] l[1] = "o" -> P2(d, 3)
BVal(d, l) == CASE l[2] = "i" -> P2(d, 1) [] l[2] = "o" -> VAdd(P2(d, 3), KVal(d))
Lin2(x) == [x |-> x]
Rs(d, l) == << VSub(AVal(d, l), P2(d, 3)), VSub(BVal(d, l), VAdd(P2(d, 3), KVal(d))), VSub(VSub(BVal(d, l), AVal(d, l)), KVal(d)) >>
I(n) == ROfInt(n)
Jac == << <<I(1), I(0), I(0), I(0)>>, <<I(0), I(1), I(0), I(0)>>, <<I(0), I(0), I(1), I(0)>>, <<I(0), I(0), I(0), I(1)>>,
          <<I(-1), I(0), I(1), I(0)>>, <<I(0), I(-1), I(0), I(1)>> >>
TwoThirds == RDiv(I(2), I(3))
Show(d, x, l) ==
    CASE x \in {"A", "N"} -> << AVal(d, l), <<I(1), I(2), I(1)>> >>
      [] x = "K" -> << KVal(d), <<I(3), I(2), I(1)>> >>
      [] x = "F" -> << Rs(d, l)[3], <<I(13), I(2), I(1)>>, AVal(d, l), BVal(d, l), KVal(d) >>
      [] x \in {"G", "H"} -> << AVal(d, l) \o BVal(d, l), Rs(d, l)[1] \o Rs(d, l)[2] \o Rs(d, l)[3], AVal(d, l), BVal(d, l) >> \o Rs(d, l)
      [] x = "O" -> << <<I(50)>> >>
      [] x = "V" -> << AVal(d, l) >>
      [] x = "R" -> << Rs(d, l)[1] \o Rs(d, l)[2] \o Rs(d, l)[3] >>
      [] x = "J" -> Jac
      [] x = "C" -> << <<TwoThirds, I(0)>>, <<I(0), TwoThirds>> >>
      [] x = "L" -> << AVal(d, l), BVal(d, l) >>
      [] x = "W" -> << AVal(d, l), BVal(d, l), KVal(d) >>
      [] x = "E" -> Rs(d, l)
      [] x = "S" -> << <<I(50), RLit("1e-9"), RLit("1e-10")>> >>
Tol == RLit("1e-6")
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], Tol)
Shows(w, x, v) ==
    IF x = "T" THEN RAllFinite(v[1]) /\ v[1][1] \in {I(0), I(1)} /\ v[1][2] \in { I(k) : k \in 0..5 } /\ (w.s.ran => Close(v[1][3], I(0), Tol))
    ELSE \E l \in MayShow(w.s, x) : Same(v, Show(w.d, x, l))

\* ------------------------------------------------------------------ replay
Step(w, e) == IF e.op = "new" THEN [s |-> NewProblem, d |-> e.d] ELSE [w EXCEPT !.s = Apply(@, <<e.op, e.x>>)]
Bad(w, e) ==      \* w: after the step
    Ck(e.ok = 1, "the call raised an exception") \cup
    { "reading " \o e.bad[i] \o " raised an exception" : i \in 1..Len(e.bad) } \cup
    Ck(e.bad # <<>> \/ { e.rd[i][1] : i \in 1..Len(e.rd) } = w.s.held, "HARNESS: not every handle was read") \cup
    UNION { Ck(Shows(w, e.rd[i][1], e.rd[i][2]), "handle " \o e.rd[i][1] \o " shows a value its object does not have") : i \in 1..Len(e.rd) }

VARIABLES pos, world
Init == pos = 1 /\ world = [s |-> NewProblem, d |-> <<>>]
Next ==
    /\ pos <= Len(TraceLog)
    /\ LET e == TraceLog[pos]
           P(b) == PrintT("FAIL|P30|" \o Str(e.ep) \o "|" \o Str(pos) \o "|" \o e.op \o " " \o e.x \o "|" \o b)
       IN IF e.op \in {"end", "crash"} THEN world' = world /\ (IF e.op = "end" THEN TRUE ELSE P("the process was killed by signal " \o Str(e.sig)))
          ELSE /\ Assert(e.op = "new" \/ Enabled(world.s, <<e.op, e.x>>), "not a behaviour of PyLife")
               /\ world' = Step(world, e)
               /\ \A b \in Bad(world', e) : P(b)
    /\ pos' = pos + 1
Spec == Init /\ [][Next]_<<pos, world>>
View == pos
Done == pos <= Len(TraceLog) \/ PrintT("DONE|" \o Str(Len(TraceLog)))
=============================================================================
