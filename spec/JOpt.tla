-------------------------------- MODULE JOpt --------------------------------
(***************************************************************************)
(* Calls on optimizers.                                                    *)
(*                                                                         *)
(* optimize() hides its iterations, so the generator observes them as      *)
(* prefixes: from one start x0 it runs the optimizer with                  *)
(* max_num_iterations = 0, 1, 2, ... and the specification requires run k  *)
(* to be what its rules make of run k-1: the same result if run k-1 had    *)
(* stopped, one more iteration otherwise.  What one iteration may do is    *)
(* computed from a witness recorded at the state of run k-1 (op wit): the  *)
(* Jacobian and residual of the factors there and, for candidate dampings, *)
(* a step dx that the specification verifies against the normal equations, *)
(* the state it leads to, and the residual there.                          *)
(*                                                                         *)
(* An optimizer is a record                                                *)
(*   g, m (0 Gauss-Newton, 1 LM), maxit, d (settings), st ("none", "set",  *)
(*   "done", "?"), cov ("no", "yes", "?"), covrev, covJ (J when prepared), *)
(*   key (identifies a chain of prefix runs), runs (the chain), last       *)
(***************************************************************************)
EXTENDS JGraph, OptCore

NoOpt == [g |-> -1, m |-> 0, maxit |-> 0, d |-> <<>>, st |-> "none", cov |-> "no", covrev |-> 0, covJ |-> <<>>,
          key |-> <<>>, runs |-> <<>>, last |-> <<>>]
Opt(w, o) == Get(w.O, o, NoOpt)
SetO(w, o, x) == [w EXCEPT !.O = Put(@, o, x)]

StepTol(o) == o.d[1]   ResidTol(o) == o.d[2]   Lam0(o) == o.d[3]   LamMax(o) == o.d[4]
UpF(o) == o.d[5]       DownF(o) == o.d[6]      Rate(o) == o.d[7]

JSetup(w, e) == Res(SetO(w, e.o, LifeSetup([NoOpt EXCEPT !.g = e.g, !.m = e.m, !.maxit = e.maxit, !.d = e.d])),
                    Ck(e.ok = 1, "P20", "setup() threw"))

\* ------------------------------------------------------------ comparisons
Tie == RLit("1e-12")
\* (two reported numbers that are the very same double are compared exactly, anything else that close may go either way)
LtTol(a, b, t) == IF ~RFinite(a) \/ ~RFinite(b) THEN {RLt(a, b)}
                  ELSE IF RLe(RAbs(RSub(a, b)), t) THEN {TRUE, FALSE} ELSE {RLt(a, b)}
LtS(a, b) == IF a = b THEN {FALSE} ELSE LtTol(a, b, RMul(Tie, RAdd(RAbs(a), RAbs(b))))
Near(a, b, rel, abs) == Close(a, b, RAdd(abs, RMul(rel, RAdd(RAbs(a), RAbs(b)))))

VerdictsOf(o, prev, cur, init) ==
    LET Small(p, r) == IF p = r /\ RFinite(p) THEN {RLt(Zero, ResidTol(o))} ELSE LtTol(RSub(p, r), ResidTol(o), RMul(Tie, RAdd(RAbs(p), RAbs(r))))
    IN Verdicts(prev.rn, cur.rn, init.rn, cur.dn, StepTol(o), LtS, Small)

\* ------------------------------------------------- the linear system of a trial
Plain(J) == J # <<>>
Hess(J) == MMul(MT(J), J)
Damped(H, l) == IF l = Zero THEN H ELSE [i \in 1..Len(H) |-> [H[i] EXCEPT ![i] = RAdd(@, l)]]
Frob(m) == RSqrt(RSum([i \in 1..Len(m) |-> VSq(m[i])]))
InvOf(f, n) == [i \in 1..n |-> LdlSolve(f, VUnit(n, i))]      \* rows of the (symmetric) inverse
Reverse(m) == LET n == Len(m) IN [i \in 1..n |-> [j \in 1..n |-> m[n + 1 - i][n + 1 - j]]]
PivotsBad(D) == \/ ~RAllFinite(D) \/ RLt(RMaxAbs(D), RLit("1e-300"))
                \/ RLt(VMin([i \in 1..Len(D) |-> RAbs(D[i])]), RLit("1e-16"))
                \/ RLt(RMul(RLit("1e14"), VMin([i \in 1..Len(D) |-> RAbs(D[i])])), RMaxAbs(D))
\* "good": whatever the elimination order, pivots exceed 1e-14 and their ratio stays below 1e12 (they lie between the
\* eigenvalues); "bad": elimination in two orders meets a pivot that is zero up to rounding; "?" otherwise
System(H) ==
    LET n == Len(H)  f == Ldl(H)
        bad == ~RAllFinite(Concat(H)) \/ (PivotsBad(f.D) /\ PivotsBad(Ldl(Reverse(H)).D))
        inv == InvOf(f, n)
        fi == Frob(inv)
        kappa == RMul(fi, Frob(H))
    IN IF bad THEN [c |-> "bad", kappa |-> RLit("1e300"), inv |-> <<>>]
       ELSE [c |-> IF RLt(kappa, RLit("1e11")) /\ RLt(fi, RLit("1e13")) /\ RFinite(kappa) THEN "good" ELSE "?",
             kappa |-> IF RFinite(kappa) THEN kappa ELSE RLit("1e300"), inv |-> inv]
\* dx solves A dx = b up to what the conditioning of A allows
Solves(A, dx, b, kappa) ==
    LET rr == VSub(MVec(A, dx), b)
    IN RLe(RMaxAbs(rr), RMul(RLit("1e-10"), RAdd(RMaxAbs(b), RMul(Frob(A), RMaxAbs(dx)))))

\* the witness entry for damping l: index into wit.tr, 0 if there is none
TrialAt(wit, l) == LET h == { i \in 1..Len(wit.tr) : Near(wit.tr[i].lam, l, RLit("1e-10"), Zero) }
                   IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE

VecOfGraph(w, g) == [i \in 1..Len(g.vs) |-> w.V[g.vs[i]].x]
SameX(k, x, y, tol) ==
    CASE k \in {"pose"} -> VClose(Seg(x, 1, 3), Seg(y, 1, 3), Rel(y, tol)) /\ MClose(Exp(Seg(x, 4, 3)), Exp(Seg(y, 4, 3)), tol)
      [] k = "rot" -> MClose(Exp(x), Exp(y), tol)
      [] k = "pose2" -> VClose(Seg(x, 1, 2), Seg(y, 1, 2), Rel(y, tol)) /\ SameAngle(x[3], y[3], tol)
      [] OTHER -> VClose(x, y, Rel(y, tol))
SameXs(w, g, xs, ys, tol) ==
    \A i \in 1..Len(xs) : LET v == w.V[g.vs[i]]
                          IN IF v.k \in {"pose", "rot", "pose2"} THEN SameValue(v.k, xs[i], ys[i]) \/ SameX(v.k, xs[i], ys[i], tol)
                             ELSE VClose(xs[i], ys[i], RMul(tol, RAdd(One, RMaxAbs(ys[i]))))

\* ---------------------------------------------------------------- one step
\* noise level of a residual norm in this run
Noise(o, run) == RMul(RLit("1e-11"), RAdd(One, run.i.rn))

\* What is wrong with `cur` as the run with one more iteration than `prev` (which had not stopped).
StepBad(w, g, o, prev, cur) ==
    LET wit == prev.wit
        GN == o.m = 0
        J == wit.j.m
        n == wit.j.c
        b == VScale(ROfInt(-1), MVec(MT(J), wit.r))
        H == Hess(J)
        lam0 == IF prev.maxit = 0 THEN Lam0(o) ELSE prev.s.lam
        finite == RFinite(VSq(wit.r)) /\ RAllFinite(Concat(J))     \* (a residual whose square overflows counts as not finite)
        Sys(i) == System(Damped(H, wit.tr[i].lam))
        \* fate of the trial recorded as wit.tr[i]; its system is s
        Fate(i, s) ==
            LET t == wit.tr[i]
                solved == IF s.c = "bad" \/ t.fin = 0 THEN {}
                          ELSE IF t.thr = 1 THEN {"throws"}
                          ELSE LET c1 == VNorm(wit.r)  c2 == VNorm(t.r2)
                                   lt == LtTol(c2, c1, RAdd(Noise(o, cur), RMul(RLit("1e-9"), c1)))
                               IN (IF TRUE \in lt THEN {"better"} ELSE {}) \cup (IF FALSE \in lt THEN {"worse"} ELSE {})
            IN solved \cup (IF s.c # "good" THEN {"unsolved"} ELSE {})
        UpL(l) == RMin(RMul(l, UpF(o)), LamMax(o))
        DownL(l) == RMax(RMul(l, DownF(o)), RLit("1e-12"))
        AtMaxL(l) == RLe(LamMax(o), l)
        Trial(j, l) == LET i == TrialAt(wit, l) IN IF i = 0 THEN {"?"} ELSE Fate(i, Sys(i))
        \* trials are only enumerated when every damping that can occur is witnessed
        witnessed == { i \in 1..Len(wit.tr) : TRUE } # {} /\ TrialAt(wit, lam0) # 0
        verified == { i \in 1..Len(wit.tr) : wit.tr[i].fin = 0 \/ Solves(Damped(H, wit.tr[i].lam), wit.tr[i].dx, b, One) }
        TolOf(s, dx) == RAdd(RLit("1e-9"), RMul(RMul(RLit("1e-14"), s.kappa), RMaxAbs(dx)))
        failed == cur.s.v = 0 /\ cur.s.st \in SolverFailures
        same == SameXs(w, g, cur.x, prev.x, RLit("1e-12"))
        TookTrial(i) == LET t == wit.tr[i] IN t.fin = 1 /\ t.thr = 0 /\ SameXs(w, g, cur.x, t.x2, TolOf(Sys(i), t.dx))
        At(k) == "iteration " \o Str(k + 1) \o ": "
        K == prev.maxit
    IN IF wit.thr = 1 THEN Info("step from a state where a factor throws") \cup Ck(failed, "P22", At(K) \o "a factor threw, but the run ended valid")
       ELSE IF n = 0 THEN {}
       ELSE IF ~finite THEN Info("step from a non-finite state") \cup
            Ck((cur.s.v = 0 /\ cur.s.st # StSuccess) \/ (~GN /\ same /\ RFinite(VSq(wit.r))), "P22",
               At(K) \o "residual or Jacobian not finite, but the run ended valid")
       ELSE IF GN THEN
            IF wit.tr = <<>> \/ wit.tr[1].lam # Zero THEN {}
            ELSE LET t == wit.tr[1]  s == Sys(1)
                 IN CASE s.c = "bad" -> Info("GN singular step") \cup Ck(failed, "P17", At(K) \o "the normal equations are singular, but the run did not end with an error") \cup
                                        Ck(same, "P17", At(K) \o "a step was taken although the normal equations are singular")
                      [] s.c = "?" -> Info("GN borderline system")
                      [] OTHER ->
                          IF t.fin = 0 \/ 1 \notin verified THEN Info("GN step not verified")
                          ELSE IF t.thr = 1 THEN Ck(failed, "P22", At(K) \o "a factor threw after the step, but the run ended valid")
                          ELSE Info("GN step") \cup Ck(TookTrial(1), "P17", At(K) \o "the variables did not move by learning_rate times the solution of the normal equations") \cup
                               (IF ~RFinite(VSq(t.r2)) THEN Ck(cur.s.v = 0 /\ cur.s.st # StSuccess, "P22", At(K) \o "the residual became not finite, but the run ended valid")
                                ELSE Ck(~failed, "P17", At(K) \o "a solvable step ended with an error status") \cup
                                     (IF ~TookTrial(1) THEN {} ELSE
                                      Ck(Near(cur.s.dn, RMul(RAbs(Rate(o)), VNorm(t.dx)), RLit("1e-8"), TolOf(s, t.dx)), "P21", At(K) \o "delta_norm is not the length of the step") \cup
                                      Ck(cur.s.it = K + 1, "P21", At(K) \o "current_iteration is " \o Str(cur.s.it)) \cup
                                      Ck([st |-> cur.s.st, v |-> cur.s.v] \in { StatusOf(x) : x \in VerdictsOf(o, prev.s, cur.s, cur.i) },
                                         "P20", At(K) \o "status " \o Str(cur.s.st) \o " is not what the rules give")))
       ELSE \* Levenberg-Marquardt
            IF ~witnessed \/ verified # 1..Len(wit.tr) THEN
                 Info("LM step not verified") \cup Ck(witnessed \/ prev.maxit = 0 \/ ~prev.s.v = 1, "P19", At(K) \o "no witness for the damping reported")
            ELSE LET outs == LMIteration(lam0, Trial, UpL, DownL, AtMaxL)
                     thr == { x \in outs : x.thr }
                     acc == { x \in outs : x.acc }
                     none == { x \in outs : ~x.acc /\ ~x.thr }
                     \* the trial that was accepted, found through its damping after Down
                     LamOf(x) == { i \in 1..Len(wit.tr) : Near(DownL(wit.tr[i].lam), x.lam, RLit("1e-10"), Zero) }
                     LamOk(x) == Near(cur.s.lam, x.lam, RLit("1e-9"), Zero)
                     okAcc == { x \in acc : LamOk(x) /\ \E i \in LamOf(x) : TookTrial(i) }
                     okNone == { x \in none : LamOk(x) /\ same }
                     moved == ~same
                     initRn == cur.i.rn
                     beat == LtTol(prev.s.rn, initRn, Noise(o, cur))
                 IN IF thr # {} /\ failed THEN Info("LM trial throws")
                    ELSE Info(IF Cardinality(outs) > 1 THEN "LM iteration, tie" ELSE IF acc # {} THEN "LM accepts trial " \o Str((CHOOSE x \in acc : TRUE).j) ELSE "LM no step") \cup
                         Ck(acc # {} \/ same, "P18", At(K) \o "no trial lowers the cost, but the variables changed") \cup
                         Ck(none # {} \/ \E i \in 1..Len(wit.tr) : TookTrial(i), IF same THEN "P18" ELSE "P19",
                            At(K) \o "the variables are not where any trial leads") \cup
                         (IF okAcc \cup okNone # {} THEN {}
                          ELSE IF (acc # {} /\ \E x \in acc : \E i \in LamOf(x) : TookTrial(i)) \/ (none # {} /\ same)
                               THEN {<<"P19", At(K) \o "damping is " \o RStr(cur.s.lam) \o " after the iteration, not what the rule gives">>}
                          ELSE {<<"P18", At(K) \o "the step kept is not the first trial that lowers the cost">>,
                                <<"P19", At(K) \o "the step kept is not that of the damping rule">>}) \cup
                         (IF okAcc # {} THEN
                             Ck(~failed, "P20", At(K) \o "an accepted step ended with an error status") \cup
                             Ck(cur.s.it = K + 1, "P21", At(K) \o "current_iteration is " \o Str(cur.s.it)) \cup
                             Ck(\E x \in okAcc : \E i \in LamOf(x) : Near(cur.s.dn, RMul(RAbs(Rate(o)), VNorm(wit.tr[i].dx)), RLit("1e-8"), TolOf(Sys(i), wit.tr[i].dx))
                                \/ okNone # {}, "P21", At(K) \o "delta_norm is not the length of the accepted step")
                          ELSE IF okNone # {} THEN
                             Ck(cur.s.dn = Zero, "P21", At(K) \o "delta_norm is not 0 although no step was accepted") \cup
                             Ck([st |-> cur.s.st, v |-> cur.s.v] \in NoStepStatus(beat, RLe(LamMax(o), cur.s.lam)),
                                "P20", At(K) \o "status " \o Str(cur.s.st) \o " after an iteration without a step")
                          ELSE {})

\* Has the run ended before its limit?  A set of truth values.
Stopped(o, runs, k) ==                      \* runs[k] is the run with maxit = k - 1
    LET r == runs[k]
    IN IF k = 1 THEN {FALSE}        \* (0 iterations from a non-finite state end FAILED, yet nothing has stopped)
       ELSE IF r.s.v = 0 \/ r.s.st # StSuccess THEN {TRUE}
       ELSE LET v == VerdictsOf(o, runs[k - 1].s, r.s, r.i)
            IN (IF v \ {"goes on"} # {} THEN {TRUE} ELSE {}) \cup (IF "goes on" \in v THEN {FALSE} ELSE {})

SameRun(w, g, a, b) ==
    /\ SameXs(w, g, a.x, b.x, RLit("1e-12"))
    /\ a.s.st = b.s.st /\ a.s.v = b.s.v /\ a.s.it = b.s.it
    /\ Near(a.s.chi2, b.s.chi2, RLit("1e-9"), RLit("1e-25")) /\ Near(a.s.dn, b.s.dn, RLit("1e-9"), RLit("1e-20"))
    /\ Near(a.s.rn, b.s.rn, RLit("1e-9"), RLit("1e-13"))
    /\ Near(a.s.lam, b.s.lam, RLit("1e-9"), Zero)

\* ------------------------------------------------------------ optimize()
Truthful(s, r) == /\ Near(s.rn, VNorm(r), RLit("1e-9"), RLit("1e-14"))
                  /\ Near(s.chi2, VSq(r), RLit("1e-9"), RLit("1e-25"))

RunBad(w, g, o, e, run) ==
    LET s == e.s
        v == s.v = 1
        throwers == \E i \in 1..Len(g.fs) : LET f == w.F[g.fs[i]] IN f.k = "usr" /\ (f.n[1] >= 5 \/ f.arm)
        lost == e.r1.t = 1 \/ ~RFinite(VSq(e.r1.r)) \/ throwers
    IN Ck(s.st # StRunning, "P20", "the final status is RUNNING") \cup
       Ck(v = (s.st = StSuccess), IF v THEN "P22" ELSE "P20", "valid = " \o Str(s.v) \o " with status " \o Str(s.st)) \cup
       Ck(s.it <= o.maxit, "P20", Str(s.it) \o " iterations, the limit was " \o Str(o.maxit)) \cup
       Ck(e.i.v = 1 /\ Truthful(e.i, e.r0.r), "P21", "initial_stats_ does not describe the starting values") \cup
       Ck(v => (e.r1.t = 0 /\ RFinite(VSq(e.r1.r)) /\ RAllFinite(<<s.rn, s.chi2, s.dn>>) /\ RAllFinite(Concat(run.x))), "P22",
          "the run is valid, but its values, residual or statistics are not finite") \cup
       Ck((~RFinite(VSq(e.r0.r)) /\ o.m = 0) => s.st # StSuccess, "P22", "started from a residual that is not finite and reported SUCCESS") \cup
       (IF lost /\ ~v THEN {} ELSE Ck(e.r1.t = 1 \/ Truthful(s, e.r1.r), "P21", "current_stats_ (chi2 " \o RStr(s.chi2) \o ") does not describe the final values (chi2 " \o RStr(VSq(e.r1.r)) \o ")")) \cup
       (IF o.m = 1 /\ e.r1.t = 0 /\ RFinite(VSq(e.r0.r)) /\ ~(throwers /\ ~v)
        THEN Ck(RFinite(VSq(e.r1.r)) /\ RLe(VNorm(e.r1.r), RAdd(VNorm(e.r0.r), RMul(RLit("1e-12"), RAdd(One, VNorm(e.r0.r))))), "P18",
                "Levenberg-Marquardt raised the cost from " \o RStr(VSq(e.r0.r)) \o " to " \o RStr(VSq(e.r1.r))) ELSE {}) \cup
       (IF NV(w, g) = 0 /\ RFinite(VSq(e.r0.r)) THEN Ck(v /\ s.st = StSuccess, "P20", "a graph without free variables did not end in SUCCESS") ELSE {})

\* the value of slot s after the call: what the record says, or what it was
After(w, e, s) == LET h == { i \in 1..Len(e.ch) : e.ch[i].s = s } IN IF h = {} THEN w.V[s].x ELSE e.ch[CHOOSE i \in h : TRUE].x

JRun(w, e) ==
    LET o == Opt(w, e.o)  g == Graph(w, o.g)
    IN IF ~CanRun(o, g)
       THEN ResF(w, Ck(e.ok = 0, "P03", "optimize() ran on a graph that is not finalized for its contents"), "P23")
       ELSE IF g.stale THEN [ResF(SetO(w, e.o, LifeUnknown(o)), {}, "P23") EXCEPT !.free = Range(g.vs)]
       ELSE IF e.ok = 0 THEN
            [ResF(SetO(w, e.o, LifeUnknown(o)), Ck(e.r0.t = 1 \/ Armed(w, g), "P20", "optimize() threw"), "P23") EXCEPT !.free = Range(NonConst(w, g))]
       ELSE LET x0 == VecOfGraph(w, g)
                key == <<o.g, g.rev, o.m, o.d, x0, [i \in 1..Len(g.vs) |-> w.V[g.vs[i]].c], [i \in 1..Len(g.fs) |-> w.F[g.fs[i]].arm]>>
                run == [maxit |-> o.maxit, x |-> [i \in 1..Len(g.vs) |-> After(w, e, g.vs[i])], s |-> e.s, i |-> e.i, wit |-> <<>>, r1 |-> e.r1]
                mem == <<"chain", e.o>>
                ch == Get(w.M, mem, [key |-> <<>>, runs |-> <<>>])
                runs == IF ch.key = key THEN ch.runs ELSE <<>>
                k == o.maxit
                armed == Armed(w, g)
                chain ==
                    IF armed THEN {}
                    ELSE IF k = 0 THEN Ck(SameXs(w, g, run.x, x0, RLit("1e-12")) /\ e.s.it = 0, "P20", "a run of 0 iterations changed something") \cup
                              (IF runs # <<>> THEN Ck(SameRun(w, g, run, runs[1]), "P21", "repeating a run gives another result") ELSE {})
                    ELSE IF k < Len(runs) THEN Info("run repeated") \cup Ck(SameRun(w, g, run, runs[k + 1]), "P21", "repeating a run of " \o Str(k) \o " iterations gives another result")
                    ELSE IF runs = <<>> THEN {}
                    ELSE LET n == Len(runs)  stop == Stopped(o, runs, n)
                         IN IF k > n THEN (IF stop = {TRUE} THEN Info("long run stops") \cup Ck(SameRun(w, g, run, runs[n]), "P20", "a run went on after iteration " \o Str(n - 1) \o " where it had to stop") ELSE {})
                            ELSE IF stop = {TRUE} THEN Info("run stops") \cup Ck(SameRun(w, g, run, runs[n]), "P20", "a run went on after iteration " \o Str(n - 1) \o " where it had to stop")
                            ELSE IF TRUE \in stop /\ SameRun(w, g, run, runs[n]) THEN {}
                            ELSE Ck(~(stop = {FALSE} /\ SameRun(w, g, run, runs[n])) \/ runs[n].wit = <<>> \/ runs[n].wit.j.c = 0, "P20",
                                    "a run stopped after iteration " \o Str(n - 1) \o " although no rule says so") \cup
                                 (IF runs[n].wit = <<>> THEN {} ELSE StepBad(w, g, o, runs[n], run))
                runs2 == IF armed THEN <<>> ELSE IF k = Len(runs) THEN Append(runs, run) ELSE IF k = 0 /\ runs = <<>> THEN <<run>> ELSE runs
            IN [ResF([SetO(w, e.o, [LifeRan(o) EXCEPT !.last = run])
                      EXCEPT !.M = Put(@, mem, [key |-> key, runs |-> runs2]), !.G = Put(@, o.g, [g EXCEPT !.cr = Maybe, !.cj = Maybe, !.cs = Maybe])],
                     RunBad(w, g, o, e, run) \cup chain \cup
                     (IF Has(e, "tx") THEN RunTextBad(w, g, e, o.m, o.maxit, o.d) ELSE Ck(~Has(e, "quiet") \/ e.quiet = 1, "P32", "a run that is not verbose reports all the same")), "P23") EXCEPT !.free = Range(NonConst(w, g))]

\* A witness belongs to the last run of every chain whose graph has this content and whose result is the current state.
JWit(w, e) ==
    LET Belongs(c) == /\ c.runs # <<>>
                      /\ LET g == Graph(w, c.key[1])
                         IN g.vs = e.vs /\ g.fs = e.fs /\ g.rev = c.key[2] /\ c.runs[Len(c.runs)].x = VecOfGraph(w, g)
        Add(c) == [c EXCEPT !.runs[Len(c.runs)].wit = [thr |-> e.thr, j |-> e.j, r |-> e.r, tr |-> e.tr]]
    IN ResF([w EXCEPT !.M = [k \in DOMAIN @ |-> IF k[1] = "chain" /\ Belongs(@[k]) THEN Add(@[k]) ELSE @[k]]], {}, "P16")

\* --------------------------------------------------------- covariances (P24, P25)
\* prep carries the factors' Jacobians at the time of the call (fj), so that the specification can form J itself
JPrep(w, e) ==
    LET o == Opt(w, e.o)  g == Graph(w, o.g)
    IN IF o.st = "none" THEN ResF(w, {}, "P25")
       ELSE IF CovCurrent(o, g) THEN ResF(w, Ck(e.ok = 1, "P25", "preparing covariances again threw"), "P25")
       ELSE IF CovReady(o, g) THEN ResF(SetO(w, e.o, IF e.ok = 1 /\ e.ft = 0 /\ BlocksFit(w, g, e.fj) THEN [LifePrepared(o, g) EXCEPT !.covJ = Assemble(w, g, e.fj)] ELSE [o EXCEPT !.cov = "?"]),
                               Ck(e.ok = 1 \/ e.ft = 1, "P25", "prepare_to_estimate_covariances() threw"), "P25")
       ELSE ResF(IF o.st = "?" THEN SetO(w, e.o, [o EXCEPT !.cov = "?"]) ELSE w, {}, "P25")
JPCov(w, e) ==      \* print_all_covariances() prepares if nothing is prepared
    LET p == JPrep(w, e)  o == Opt(w, e.o)
    IN IF o.st = "none" THEN ResF(w, {}, "P25") ELSE [p EXCEPT !.f = IF e.ok = 1 THEN CovTextBad(w, Graph(w, o.g), e) ELSE {}]

JCov(w, e) ==
    LET o == Opt(w, e.o)  g == Graph(w, o.g)
        empty == e.p.r = 0 \/ e.p.c = 0
        inGraph == e.s >= 0 /\ e.s \in Range(g.vs)
        may == /\ CovServable(o, g)
               /\ inGraph /\ ~w.V[e.s].c
    IN IF e.ok = 0 THEN ResF(w, {<<"P25", "estimate_covariance() threw">>}, "P25")
       ELSE ResF(w,
         Ck(e.valid = 1 \/ empty, "P25", "an invalid covariance is not empty") \cup
         (IF o.st = "?" \/ o.cov = "?" \/ g.stale THEN Info("covariance, unknown state")
          ELSE IF ~may THEN Info("covariance that must be invalid") \cup Ck(e.valid = 0, "P25",
                  IF e.s < 0 THEN "a covariance of a null variable is valid"
                  ELSE IF ~inGraph THEN "a covariance of a variable outside the graph is valid"
                  ELSE IF w.V[e.s].c THEN "a covariance of a constant variable is valid"
                  ELSE "a covariance is valid although none was prepared for the current run and structure")
          ELSE LET H == Hess(o.covJ)  sys == System(H)
                   a == ColOf(w, g, PosIn(g.vs, e.s))  n == Len(w.V[e.s].x)
                   Blk(m) == [i \in 1..n |-> SubSeq(m[a + i], a + 1, a + n)]
                   zerocol == \E j \in (a + 1)..(a + n) : \A i \in 1..Len(o.covJ) : o.covJ[i][j] = Zero
                   P == IF sys.inv = <<>> THEN <<>> ELSE Blk(sys.inv)
                   diag == IF P = <<>> THEN <<One>> ELSE [i \in 1..n |-> P[i][i]]
                   tol == RMul(RMul(RAdd(RLit("1e-8"), RMul(RLit("1e-14"), sys.kappa)), One), MatMax(P))
               IN Ck(e.valid = 0 \/ Shape(e.p, n, n), "P24", "a valid covariance has the wrong shape") \cup
                  Ck(e.valid = 0 \/ RAllFinite(Concat(e.p.m)), "P25", "a covariance that is not finite is valid") \cup
                  (IF e.valid = 0 \/ ~Shape(e.p, n, n) THEN {} ELSE
                   Ck(SameMat(e.p.m, MT(e.p.m)), "P24", "a valid covariance is not symmetric") \cup
                   Ck(\A i \in 1..n : ~RLt(e.p.m[i][i], Zero), "P24", "a valid covariance has a negative variance") \cup
                   Ck(\A i \in 1..n : ~RLt(RLit("1.01e12"), e.p.m[i][i]), "P25", "an unbounded variance is valid")) \cup
                  Ck(~zerocol \/ e.valid = 0, "P25", "a variable that nothing observes has a valid covariance") \cup
                  Info("covariance, " \o sys.c \o " system") \cup
                  (IF sys.c # "good" THEN {} ELSE
                   IF RLt(RLit("1.01e12"), RMaxAbs(diag)) THEN Ck(e.valid = 0, "P25", "an unbounded variance is valid")
                   ELSE IF RLt(RLit("0.99e12"), RMaxAbs(diag)) THEN {}
                   ELSE Ck(e.valid = 1, "P25", "a prepared covariance is invalid") \cup
                        Ck(e.valid = 0 \/ ~Shape(e.p, n, n) \/ MClose(e.p.m, P, tol), "P24", "the covariance is not the block of the inverse of J^T J"))), "P25")

\* ------------------------------------------------------- metamorphic relation (P23)
\* note path O vague st level rn(2) lam(2): the last run of optimizer O follows a behaviour of MCOpt, so it ended with this status,
\* residual norm and damping (vague: a failure whose exact status and numbers are left open; zeros: not compared)
PathBad(w, e) ==
    LET run == Opt(w, e.n[1]).last  vague == e.n[2] = 1  st == e.n[3]  rn == <<e.n[5], e.n[6]>>  lam == <<e.n[7], e.n[8]>>
    IN IF Opt(w, e.n[1]).st # "done" THEN {<<"P20", "a run that the model allows threw">>}
       ELSE Info("behaviour of the model") \cup
            (IF vague THEN Ck(run.s.v = 0 /\ run.s.st \in SolverFailures, "P22", "the model has this run fail; it ended with status " \o Str(run.s.st))
             ELSE Ck(run.s.st = st /\ run.s.v = (IF st = StSuccess THEN 1 ELSE 0), "P20", "the model has this run end with status " \o Str(st) \o "; it ended with " \o Str(run.s.st)) \cup
                  Ck(rn = Zero \/ Near(run.s.rn, rn, RLit("1e-12"), Zero), "P18", "the model has this run end at another cost") \cup
                  Ck(lam = Zero \/ Near(run.s.lam, lam, RLit("1e-9"), Zero), "P19", "the model has this run end with another damping"))

\* note rel A B C i1 j1 i2 j2 ...: the last runs of optimizers A and B solve the same problem, variable slot i of A's graph
\* being j of B's (renamed, reordered, or with constants written as constants); C (or -1) solved A's problem from a start
\* moved by 1e-9: where that changes the outcome, rounding may as well
RelBad(w, e) ==
    LET a == Opt(w, e.n[1])  b == Opt(w, e.n[2])
        ga == Graph(w, a.g)  gb == Graph(w, b.g)
        T(x) == RLit(x)
        pairs == { <<e.n[2 * i + 2], e.n[2 * i + 3]>> : i \in 1..((Len(e.n) - 3) \div 2) }
        ra == a.last  rb == b.last
        rc == IF e.n[3] < 0 THEN ra ELSE Opt(w, e.n[3]).last
        chaotic == \/ rc = <<>>
                   \/ rc.s.v # ra.s.v \/ rc.s.st # ra.s.st \/ rc.s.it # ra.s.it
                   \/ ~Near(ra.s.chi2, rc.s.chi2, T("1e-6"), RMul(T("1e-10"), RAdd(One, ra.i.chi2)))
                   \/ \E i \in 1..Len(ga.vs) : ~SameX(w.V[ga.vs[i]].k, ra.x[i], rc.x[i], T("1e-6"))
        XA(s) == ra.x[PosIn(ga.vs, s)]
        XB(s) == rb.x[PosIn(gb.vs, s)]
        \* a run that could not solve a system that is not plainly regular (covJ: where it ended): another order may solve it
        Murky(o) == o.last.s.v = 0 /\ o.last.s.st \in SolverFailures /\ (o.cov # "yes" \/ o.covJ = <<>> \/ System(Hess(o.covJ)).c # "good")
        parted == (ra.s.st # rb.s.st \/ ra.s.it # rb.s.it) /\ (Murky(a) \/ Murky(b))
    IN IF ra = <<>> \/ rb = <<>> THEN {}
       ELSE IF chaotic \/ parted THEN Info("relation, sensitive to rounding")
       ELSE Info("relation") \cup Ck(ra.s.v = rb.s.v /\ (ra.s.st = rb.s.st \/ {ra.s.st, rb.s.st} \subseteq SolverFailures), "P23", "the same problem ends with status " \o Str(ra.s.st) \o " resp. " \o Str(rb.s.st)) \cup
            Ck(ra.s.it = rb.s.it, "P23", "the same problem takes " \o Str(ra.s.it) \o " resp. " \o Str(rb.s.it) \o " iterations") \cup
            Ck(Near(ra.i.chi2, rb.i.chi2, T("1e-9"), T("1e-18")), "P23", "the same problem starts with different costs") \cup
            Ck(Near(ra.s.chi2, rb.s.chi2, T("1e-5"), RMul(T("1e-9"), RAdd(One, ra.i.chi2))), "P23", "the same problem ends with different costs") \cup
            Ck(\A p \in pairs : SameX(w.V[p[1]].k, XA(p[1]), XB(p[2]), T("1e-5")), "P23", "the same problem ends in different values")
=============================================================================
