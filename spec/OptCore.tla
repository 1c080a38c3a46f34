------------------------------ MODULE OptCore -------------------------------
(***************************************************************************)
(* The documented rules of SparseOptimizer, independent of what numbers    *)
(* are: how Levenberg-Marquardt chains its trials and its damping, and     *)
(* when a run stops and with what verdict.  MCOpt instantiates it with     *)
(* integers and explores every run; the trace specification instantiates   *)
(* it with the real numbers of a recorded run.                             *)
(*                                                                         *)
(* Arguments that are operators:                                           *)
(*   Up(l)     lambda after a failed trial (never above the maximum)       *)
(*   Down(l)   lambda after an accepted step (never below 1e-12)           *)
(*   AtMax(l)  lambda has reached its maximum                              *)
(*   SmallGain(p, r)  "norm p - norm r < residual tolerance"               *)
(* Lt(a, b) answers "a < b" with a set of truth values: a singleton, or    *)
(* both when the arithmetic at hand cannot tell (rounding ties).           *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxTrials == 5

\* ------------------------------------------------- one iteration of LM (P18, P19)
\* Trial(j, l) is the set of possible fates of the j-th trial of the iteration, made with damping l:
\*   "better"    the step lowers the cost           -> it is kept
\*   "worse"     it does not (or is not finite)     -> it is undone, and damping goes up
\*   "unsolved"  the damped system cannot be solved -> nothing moves, and damping goes up
\*   "throws"    a factor threw                     -> the run fails
NoStep(l) == [acc |-> FALSE, j |-> 0, lam |-> l, thr |-> FALSE]
LMIteration(l0, Trial(_, _), Up(_), Down(_), AtMax(_)) ==
    LET RECURSIVE From(_, _)
        From(j, l) ==
            IF j > MaxTrials THEN { NoStep(l) }
            ELSE UNION { CASE c = "better"   -> { [acc |-> TRUE, j |-> j, lam |-> Down(l), thr |-> FALSE] }
                           [] c = "throws"   -> { [acc |-> FALSE, j |-> j, lam |-> l, thr |-> TRUE] }
                           [] c = "worse"    -> IF AtMax(Up(l)) THEN { NoStep(Up(l)) } ELSE From(j + 1, Up(l))
                           [] c = "unsolved" -> From(j + 1, Up(l)) \cup (IF AtMax(Up(l)) THEN { NoStep(Up(l)) } ELSE {})
                         : c \in Trial(j, l) }
    IN From(1, l0)

\* ------------------------------------------------------------- stopping (P20)
\* p, r: residual norm before and after the iteration; r0: at the start of the run; d, tol: length of the step and its tolerance
Verdicts(p, r, r0, d, tol, Lt(_, _), SmallGain(_, _)) ==
    (IF TRUE \in Lt(d, tol) THEN {"converged"} ELSE {}) \cup
    (IF FALSE \in Lt(d, tol) THEN
        (IF TRUE \in Lt(p, r) THEN (IF FALSE \in Lt(r, r0) THEN {"diverged"} ELSE {}) \cup (IF TRUE \in Lt(r, r0) THEN {"converged"} ELSE {}) ELSE {})
        \cup
        (IF FALSE \in Lt(p, r) THEN (IF TRUE \in SmallGain(p, r) THEN {"converged"} ELSE {}) \cup (IF FALSE \in SmallGain(p, r) THEN {"goes on"} ELSE {}) ELSE {})
     ELSE {})

\* the reported status, and whether the run is valid
StSuccess == 0  StRunning == 1  StSingular == 2  StIll == 3  StDiverged == 4  StFailed == 5
SolverFailures == {StSingular, StIll, StFailed}
\* after an iteration that took a step, by its verdict; a run that reaches its limit while it "goes on" succeeds
StatusOf(verdict) == IF verdict = "diverged" THEN [st |-> StDiverged, v |-> 0] ELSE [st |-> StSuccess, v |-> 1]
\* after a Levenberg-Marquardt iteration without a step: better(than at the start) as a set of truth values
NoStepStatus(better, atMax) == (IF TRUE \in better THEN { [st |-> StSuccess, v |-> 1] } ELSE {}) \cup
                               (IF FALSE \in better THEN { [st |-> IF atMax THEN StIll ELSE StFailed, v |-> 0] } ELSE {})
ErrorStatus == [st |-> StFailed, v |-> 0]       \* a factor threw, or something became not finite

\* ------------------------------------------------- the life of an optimizer (P20, P25)
\* st: "none" (no graph yet), "set", "done" (a run has completed since setup), "?"; cov: "no", "yes" (prepared), "?";
\* covrev: the structure (rev) it was prepared for; g: the graph record of GraphCore
NewLife == [st |-> "none", cov |-> "no", covrev |-> 0]
LifeSetup(o)       == [o EXCEPT !.st = "set", !.cov = "no"]
CanRun(o, g)       == o.st # "none" /\ g.fin
LifeRan(o)         == [o EXCEPT !.st = "done", !.cov = "no"]
LifeUnknown(o)     == [o EXCEPT !.st = "?", !.cov = "?"]
CovCurrent(o, g)   == o.cov = "yes" /\ o.covrev = g.rev        \* preparing again does nothing
CovReady(o, g)     == o.st = "done" /\ g.fin /\ ~g.stale       \* preparing prepares
LifePrepared(o, g) == [o EXCEPT !.cov = "yes", !.covrev = g.rev]
CovServable(o, g)  == o.st = "done" /\ CovCurrent(o, g) /\ g.fin
=============================================================================
