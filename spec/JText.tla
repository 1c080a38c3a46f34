-------------------------------- MODULE JText -------------------------------
(***************************************************************************)
(* What the library prints, against what is (P32).  The driver records a   *)
(* printed text as lines <<label, numbers>>: the text without its numbers, *)
(* and the numbers, which carry six significant digits (or as few as the   *)
(* call says).                                                             *)
(***************************************************************************)
EXTENDS Judge

Digits6 == RLit("6e-6")
Digits4 == RLit("6e-4")
\* p is what is printed for a
Prints(p, a, rel, abs) == Close(p, a, RAdd(RMul(rel, RAbs(a)), abs))
PrintsAll(ps, as, rel, abs) == Len(ps) = Len(as) /\ \A i \in 1..Len(as) : Prints(ps[i], as[i], rel, abs)
Ints(s) == [i \in 1..Len(s) |-> ROfInt(s[i])]
With(tx, label) == SelectSeq(tx, LAMBDA l : l[1] = label)
Firsts(ls) == [i \in 1..Len(ls) |-> IF ls[i][2] = <<>> THEN RDiv(Zero, Zero) ELSE ls[i][2][1]]

\* ---------------------------------------------------------------- variables
TypeName == [pose |-> "pose", lm |-> "landmark", ir |-> "inverse_range_landmark", rot |-> "extrinsic_rotation", gen |-> "generic",
             plane |-> "plane", pose2 |-> "pose_2d", usr |-> "custom"]
NameOf(v) == TypeName[v.k] \o Str(v.id)
\* <<numbers, how much the representation may differ>>
Shown(v) ==
    CASE v.k = "pose"  -> <<Seg(v.x, 1, 3) \o Flat(Exp(Seg(v.x, 4, 3))), DcmTol(Seg(v.x, 4, 3))>>
      [] v.k = "rot"   -> <<Flat(Exp(v.x)), DcmTol(v.x)>>
      [] v.k = "ir"    -> <<v.m[1] \o <<RDiv(One, v.x[1])>> \o IrPoint(v), Rel(IrPoint(v), TolX)>>
      [] v.k = "pose2" -> <<v.x \o <<RDiv(RMul(v.x[3], RLit("180")), PiR)>>, Zero>>
      [] OTHER         -> <<v.x, Zero>>
JVPrint(w, e) ==
    LET v == w.V[e.s]  sh == Shown(v)
    IN ResF(w, Ck(e.ok = 1, "P32", "printing a " \o v.k \o " threw") \cup
         (IF e.ok = 0 THEN {} ELSE
          Ck(e.nm = NameOf(v), "P32", "name() of a " \o v.k \o " is not its type and id") \cup
          Ck(e.l1 = e.nm \/ (e.n1 # <<>> /\ e.n1[Len(e.n1)] = ROfInt(v.id)), "P32", "print() of a " \o v.k \o " does not say which variable it is") \cup
          Ck(PrintsAll(e.n, sh[1], Digits6, sh[2]), "P32", "print() of a " \o v.k \o " does not state its value")), "P32")

\* -------------------------------------------------------------------- graphs
StructureBad(w, g, e) ==
    LET ns == SelectSeq(e.tx, LAMBDA l : l[2] # <<>>)
    IN Ck([i \in 1..Len(ns) |-> ns[i][2]] = << Ints(<<Len(g.vs)>>), Ints(<<Len(g.fs)>>), Ints(<<NR(w, g)>>), Ints(<<NV(w, g)>>) >>,
          "P32", "print_structure() does not state the counts of variables, factors, residuals and values")
JPVars(w, e) ==
    ResF(w, Ck(e.ok = 1, "P32", "print_variables() threw") \cup
            (IF e.ok = 0 THEN {} ELSE Ck(e.eq = 1 /\ e.more <= 1, "P32", "print_variables() is not every variable once, in order")), "P32")

Column(m, j) == [i \in 1..Len(m) |-> m[i][j]]
\* J and r as served after the call (what they have to be is P04 and P05)
JacobianTextBad(w, g, e) ==
    LET J == e.j.m  n == e.j.c
        norm == [k \in 1..n |-> VNorm(Column(J, k))]
        zero == With(e.tx, "    Near-zero column in Jacobian: param")
        said == { zero[i][2] : i \in 1..Len(zero) }
        Named(k) == Ints(<<k - 1>>) \in said
        rank == With(e.tx, "Jacobian rank:")
        good == n > 0 /\ e.j.r >= n /\ \A k \in 1..n : RLe(RLit("1e-6"), norm[k])
        H == MMul(MT(J), J)
        \* columns scaled to length one: pivots of a well conditioned system are not small
        S == [a \in 1..n |-> [b \in 1..n |-> RDiv(H[a][b], RMul(norm[a], norm[b]))]]
        full == good /\ RLe(RMul(RLit("1e-4"), VMax(norm)), VMin(norm)) /\ RAllFinite(Concat(S)) /\ RLe(RLit("1e-4"), VMin(Ldl(S).D))
        nzero == Cardinality({ k \in 1..n : norm[k] = Zero })
        Rank(k) == rank # <<>> /\ rank[1][2] = Ints(<<k>>)
    IN (IF RAllFinite(Concat(J)) THEN
        Ck(With(e.tx, "Jacobian:  x") = << <<"Jacobian:  x", Ints(<<e.j.r, n>>)>> >>, "P32", "print_jacobian_and_residual() states another size") \cup
        Ck(\A k \in 1..n : RLt(norm[k], RLit("0.9e-12")) => Named(k), "P32", "print_jacobian_and_residual() does not mention a zero column") \cup
        Ck(\A k \in 1..n : RLt(RLit("1.1e-12"), norm[k]) => ~Named(k), "P32", "print_jacobian_and_residual() calls a column zero that is not") \cup
        Ck(\A i \in 1..Len(zero) : \E k \in 1..n : zero[i][2] = Ints(<<k - 1>>), "P32", "print_jacobian_and_residual() mentions a column that does not exist") \cup
        Ck(full => Rank(n), "P32", "print_jacobian_and_residual() does not state the rank") \cup
        Ck(\E k \in 0..(IF n - nzero < e.j.r THEN n - nzero ELSE e.j.r) : Rank(k), "P32", "print_jacobian_and_residual() states an impossible rank") \cup
        Info(IF full THEN "print of a Jacobian of full rank" ELSE IF n = 0 THEN "print of an empty Jacobian" ELSE IF nzero > 0 THEN "print of a Jacobian with zero columns" ELSE "print of a Jacobian")
        ELSE {}) \cup
       Ck(With(e.tx, "Residual norm:") # <<>> /\ Prints(With(e.tx, "Residual norm:")[1][2][1], VNorm(e.r), Digits6, RLit("1e-300")), "P32",
          "print_jacobian_and_residual() states another residual norm") \cup
       Ck(IF e.det = 0 THEN e.rows = <<>>
          ELSE LET all == (IF n = 0 THEN <<>> ELSE J) \o [i \in 1..Len(e.r) |-> <<e.r[i]>>]
               IN Len(e.rows) = Len(all) /\ \A i \in 1..Len(all) : PrintsAll(e.rows[i], all[i], Digits4, RLit("1e-300")), "P32",
          "print_jacobian_and_residual(" \o Str(e.det) \o ") does not list Jacobian and residual as asked")

\* --------------------------------------------------------------- covariances
\* e.pr: what was printed under the heading of each variable; e.now: what estimate_covariance() says of each
CovTextBad(w, g, e) ==
    Ck(Len(e.pr) = Len(g.vs), "P32", "print_all_covariances() does not list every variable") \cup
    (IF Len(e.pr) # Len(g.vs) \/ Len(e.now) # Len(g.vs) THEN {} ELSE
     UNION { LET v == w.V[g.vs[i]]  p == e.pr[i]  q == e.now[i]
             IN Ck(p.nm = NameOf(v), "P32", "print_all_covariances() lists another variable") \cup
                (IF v.c THEN Ck(p.w = "constant" /\ p.n = <<>>, "P32", "print_all_covariances() does not say that a variable is constant")
                 ELSE IF q.v = 0 THEN Ck(p.w = "invalid" /\ p.n = <<>>, "P32", "print_all_covariances() does not say that a covariance is invalid")
                 ELSE Info("printed covariance") \cup Ck(p.w \notin {"constant", "invalid"} /\ PrintsAll(p.n, Flat(q.p.m), Digits6, RLit("1e-300")), "P32",
                         "print_all_covariances() prints another covariance than estimate_covariance() returns")) : i \in 1..Len(g.vs) })

\* ------------------------------------------------------------- verbose runs
LineAccepted == "[LM] Step accepted, cost:  -> , decreasing lambda to"
TrialLines == { LineAccepted, "[LM] Step rejected, cost:  -> , increasing lambda to", "[LM] Solve failed, increasing lambda to", "[LM] Factorization failed, increasing lambda to",
                "[LM] Hessian is singular (min diag=, cond est=), increasing lambda to", "[LM] Hessian is ill-conditioned (min diag=, cond est=), increasing lambda to" }
\* s, i: the statistics after and before; m method, maxit limit, d the other settings (step tolerance, residual tolerance, ..., rate)
RunTextBad(w, g, e, m, maxit, d) ==
    LET s == e.s  i == e.i
        Says(label, x, what) ==
            LET ls == With(e.tx, label)
            IN Ck(\A k \in 1..Len(ls) : ls[k][2] # <<>> /\ Prints(ls[k][2][1], x, Digits6, RLit("1e-300")), "P32", "a verbose run states another " \o what)
        fin == With(e.tx, "  Final residual norm:")  ini == With(e.tx, "  Initial residual norm:")
        dims == With(e.tx, "  J:  x  | nnz =  | density =  %")
        its == With(e.tx, "#### Iteration  ####")
        yes == With(e.tx, "  Step accepted:         YES")  no == With(e.tx, "  Step accepted:         NO")
        tries == With(e.tx, "  LM attempts:")
        ends == SelectSeq([y \in 1..Len(e.tx) |-> y], LAMBDA y : e.tx[y][1] = "  LM attempts:")
        \* the lines about the trials of the k-th iteration
        Block(k) == SubSeq(e.tx, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k])
        Trials(k) == SelectSeq(Block(k), LAMBDA l : l[1] \in TrialLines)
        accs == SelectSeq(e.tx, LAMBDA l : l[1] \in {"  Step accepted:         YES", "  Step accepted:         NO"})
        a == Firsts(ini)  b == Firsts(fin)
        Same6(x, y) == x = y \/ (RNaN(x) /\ RNaN(y))
    IN Says("Max iterations:", ROfInt(maxit), "limit of iterations") \cup
       Says("Initial residual norm:", i.rn, "initial residual norm") \cup Says("Initial chi:", i.chi2, "initial chi2") \cup
       Says("Step tolerance:", d[1], "step tolerance") \cup Says("Residual tolerance:", d[2], "residual tolerance") \cup Says("Learning rate:", d[7], "learning rate") \cup
       Ck(With(e.tx, IF m = 0 THEN "Algorithm: Levenberg-Marquardt" ELSE "Algorithm: Gauss-Newton") = <<>>, "P32", "a verbose run states another algorithm") \cup
       Says("Total iterations:", ROfInt(s.it), "number of iterations") \cup Says("Final residual norm:", s.rn, "final residual norm") \cup
       Says("Final chi:", s.chi2, "final chi2") \cup Says("Final step norm:", s.dn, "final step norm") \cup
       Says("Residual improvement:", RSub(i.rn, s.rn), "improvement") \cup
       Says("Relative improvement:  %", IF RLt(Zero, i.rn) THEN RMul(RDiv(RSub(i.rn, s.rn), i.rn), RLit("100")) ELSE Zero, "relative improvement") \cup
       Says("Status:", ROfInt(s.st), "status") \cup
       Ck(With(e.tx, IF s.v = 1 THEN "Optimization FAILED" ELSE "Optimization SUCCESS") = <<>>, "P32", "a verbose run states another outcome") \cup
       \* the summaries of the iterations: each starts where the one before it ended
       Ck(Len(a) = Len(b) => /\ \A k \in 1..(Len(a) - 1) : Same6(a[k + 1], b[k])
                             /\ a # <<>> => Prints(a[1], i.rn, Digits6, RLit("1e-300")),
          "P32", "the summary of an iteration states another initial residual norm than the state it started from") \cup
       Ck(b # <<>> /\ Len(b) = s.it => Prints(b[Len(b)], s.rn, Digits6, RLit("1e-300")), "P32", "the last summary of an iteration states another final residual norm") \cup
       Ck(\A k \in 1..Len(dims) : SubSeq(dims[k][2], 1, 2) = Ints(<<NR(w, g), NV(w, g)>>), "P32", "a verbose run states another size of the Jacobian") \cup
       Ck(\A k \in 1..Len(its) : RLt(its[k][2][1], ROfInt(maxit)), "P32", "a verbose run counts more iterations than allowed") \cup
       (IF Len(accs) = Len(a) /\ Len(a) = Len(b) /\ Len(tries) = Len(a)
        THEN Ck(\A k \in 1..Len(a) : /\ accs[k][1] = "  Step accepted:         NO" => Same6(a[k], b[k])
                                     /\ accs[k][1] = "  Step accepted:         YES" => RLe(b[k], a[k]), "P32", "a verbose run says that a step was accepted that was not, or the reverse") \cup
             (IF m = 1 THEN
              Ck(\A k \in 1..Len(a) : tries[k][2] = Ints(<<Len(Trials(k))>>), "P32", "a verbose run counts its trials wrongly") \cup
              UNION { LET none == With(Block(k), "[LM] No acceptable step found after  attempts")  won == With(Block(k), LineAccepted)  lam == With(Block(k), "  Damping ():")
                          Half2(x) == RMul(Half, RMul(x, x))
                      IN Ck(none # <<>> => none[1][2] = Ints(<<Len(Trials(k))>>), "P32", "a verbose run counts the trials that failed wrongly") \cup
                         Ck(won # <<>> => /\ accs[k][1] = "  Step accepted:         YES" /\ Len(won) = 1 /\ Len(won[1][2]) = 3
                                          /\ Prints(won[1][2][1], Half2(a[k]), RLit("2e-5"), RLit("1e-300")) /\ Prints(won[1][2][2], Half2(b[k]), RLit("2e-5"), RLit("1e-300"))
                                          /\ (lam # <<>> => lam[1][2] = <<won[1][2][3]>>), "P32", "a verbose run states other costs for the accepted step") \cup
                         Ck(accs[k][1] = "  Step accepted:         YES" => none = <<>>, "P32", "a verbose run says that no step was acceptable and that one was accepted")
                         : k \in 1..Len(a) }
              ELSE {})
        ELSE {}) \cup
       Info("verbose run")
=============================================================================
