------------------------------- MODULE MCOpt --------------------------------
(***************************************************************************)
(* optimize() as a loop over iterations, with the numbers abstracted: the  *)
(* residual norm is a level 0..C or NaN, damping a rung of a ladder.  What *)
(* the problem answers (is a trial better, does a factor throw, is the     *)
(* system solvable, is the step small) is chosen by the environment, so    *)
(* every control path of Gauss-Newton and Levenberg-Marquardt within K     *)
(* iterations is explored.  The rules are those of OptCore, which also     *)
(* judge recorded runs.  Each transition is printed; the check builds a    *)
(* problem (a factor given by a table) that drives the real optimizer down *)
(* each path.                                                              *)
(***************************************************************************)
EXTENDS OptCore, FiniteSets, TLC
CONSTANTS K, C, Rungs     \* iterations, highest level, set of [T |-> , top |-> , small |-> ]

SomeRungs == { [T |-> 0, top |-> 20, small |-> 20], [T |-> 0, top |-> 20, small |-> 3], [T |-> 0, top |-> 3, small |-> 20], [T |-> 1, top |-> 20, small |-> 20], [T |-> 3, top |-> 20, small |-> 20], [T |-> 5, top |-> 20, small |-> 20], [T |-> 1, top |-> 2, small |-> 20] }
NaN == C + 1
GN == 0
LM == 1

VARIABLES c,      \* the configuration: m (method), T (rungs below T are unsolvable), top (AtMax), small (rungs from which steps are below tolerance), r0
          k, p, r, lam, st, v
vars == <<c, k, p, r, lam, st, v>>

Lt(a, b) == IF a = NaN \/ b = NaN THEN {FALSE} ELSE {a < b}
\* the difference between levels 1 and 0 is below the residual tolerance, the others are not
SmallGain(a, b) == IF a = NaN \/ b = NaN THEN {FALSE} ELSE {a - b < 1 \/ (a = 1 /\ b = 0)}
Up(l) == IF l + 1 > c.top THEN c.top ELSE l + 1
Floor == IF c.T = 0 THEN -K ELSE c.T
Down(l) == IF l - 1 < Floor THEN Floor ELSE l - 1
AtMax(l) == l >= c.top

Init == /\ \E m \in {GN, LM}, q \in Rungs, a \in 1..C :
              c = [m |-> m, T |-> IF m = GN THEN 0 ELSE q.T, top |-> IF m = GN THEN 9 ELSE q.top, small |-> IF m = GN THEN 9 ELSE q.small, r0 |-> a]
        /\ k = 0 /\ p = c.r0 /\ r = c.r0 /\ lam = 0 /\ st = StRunning /\ v = 1

Going == st = StRunning /\ k < K
Ends(s) == st' = s.st /\ v' = s.v
\* an iteration that moved to level x with a step that is small or not
Moved(x, small) ==
    LET vd == Verdicts(r, x, c.r0, IF small THEN 0 ELSE 2, 1, Lt, SmallGain)
    IN /\ r' = x /\ p' = r /\ k' = k + 1
       /\ IF x = NaN THEN Ends(ErrorStatus)
          ELSE \E y \in vd : IF y = "goes on" /\ k + 1 < K THEN Ends([st |-> StRunning, v |-> 1]) ELSE Ends(StatusOf(y))

\* ------------------------------------------------------------ Gauss-Newton
GNStep(x, small) == c.m = GN /\ Moved(x, small) /\ UNCHANGED <<c, lam>>
GNSingular == c.m = GN /\ Ends([st |-> StSingular, v |-> 0]) /\ UNCHANGED <<c, k, p, r, lam>>
GNThrows == c.m = GN /\ Ends(ErrorStatus) /\ UNCHANGED <<c, k, p, r, lam>>

\* ----------------------------------------------------- Levenberg-Marquardt
Fates(good, thr) == [j \in 1..MaxTrials |-> IF j = good THEN {"better"} ELSE IF j = thr THEN {"throws"} ELSE {"worse"}]
Trial(f, j, l) == IF l < c.T THEN {"unsolved"} ELSE f[j]
Outcomes(f) == LET T(j, l) == Trial(f, j, l) IN LMIteration(lam, T, Up, Down, AtMax)
LMStep(j, x) == /\ c.m = LM /\ x < r
                /\ \E o \in Outcomes(Fates(j, 0)) : o.acc /\ o.j = j /\ lam' = o.lam
                /\ LET RECURSIVE At(_, _)
                       At(i, l) == IF i = 1 THEN l ELSE At(i - 1, Up(l))
                   IN Moved(x, At(j, lam) >= c.small)
                /\ c' = c
LMThrows(j) == /\ c.m = LM /\ \E o \in Outcomes(Fates(0, j)) : o.thr /\ o.j = 0
               /\ Ends(ErrorStatus) /\ UNCHANGED <<c, k, p, r, lam>>
LMNone == /\ c.m = LM /\ \E o \in Outcomes(Fates(0, 0)) : ~o.acc /\ ~o.thr /\ lam' = o.lam
          /\ \E s \in NoStepStatus(Lt(r, c.r0), AtMax(lam')) : Ends(s)
          /\ k' = k + 1 /\ p' = r /\ UNCHANGED <<c, r>>
\* the Jacobian throws, or is not a number: nothing can be solved
NoJacobian == Ends(ErrorStatus) /\ UNCHANGED <<c, k, p, r, lam>>

Call(op) == CASE op[1] = "step" -> GNStep(op[2], op[3] = 1) [] op[1] = "sing" -> GNSingular [] op[1] = "thr" -> GNThrows
              [] op[1] = "acc" -> LMStep(op[3], op[2]) [] op[1] = "lthr" -> LMThrows(op[3]) [] op[1] = "none" -> LMNone
              [] op[1] = "nojac" -> NoJacobian
Calls == { <<"step", x, b>> : x \in 0..NaN, b \in {0, 1} } \cup { <<"sing", 0, 0>>, <<"thr", 0, 0>>, <<"none", 0, 0>>, <<"nojac", 0, 0>> } \cup
         { <<"acc", x, j>> : x \in 0..C, j \in 1..MaxTrials } \cup { <<"lthr", 0, j>> : j \in 1..MaxTrials }
Key == ToString(<<c.m, c.T, c.top, c.small, c.r0, k, p, r, lam, st>>)
Next == Going /\ \E op \in Calls : Call(op) /\ PrintT("T|" \o Key \o "|" \o op[1] \o " " \o ToString(op[2]) \o " " \o ToString(op[3]) \o "|" \o Key')
Start == Init /\ PrintT("I|" \o Key)
Spec == Start /\ [][Next]_vars /\ WF_vars(Next)

\* -------------------------------------------------------------- properties
TypeOK == k \in 0..K /\ r \in 0..NaN /\ v \in {0, 1}
ValidIffNotFailed == v = 1 <=> st \in {StRunning, StSuccess}
NaNNeverValid == r = NaN => v = 0
LMNeverRaises == c.m = LM => r <= c.r0
DampingBounded == c.m = LM => lam <= c.top /\ lam >= -K
DivergedIsTrue == st = StDiverged => r >= c.r0 /\ r > p
LMStepsLower == [][c.m = LM => r' <= r]_vars
Terminates == <>(st # StRunning)
=============================================================================
