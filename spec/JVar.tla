-------------------------------- MODULE JVar --------------------------------
(***************************************************************************)
(* Calls on single variables and factors, and the free functions.          *)
(***************************************************************************)
EXTENDS JText, VarLife

\* ------------------------------------------------------------ variables
\* A constructor may refuse only an empty generic variable.
JVarNew(w, e) ==
    IF e.ok = 0 THEN Res(w, Ck(e.k = "gen" /\ e.d = <<>>, "P07", "constructor of " \o e.k \o " threw: " \o e.err))
    ELSE IF e.k = "gen" /\ e.d = <<>> THEN Res(w, {<<"P07", "an empty generic variable was accepted">>})
    ELSE LET v == New(e.k, e.id, e.c = 1, e.d)
         IN [Res([w EXCEPT !.V = Put(@, e.s, v), !.R = [t \in DOMAIN @ \ {e.s} |-> @[t]]], {}) EXCEPT !.exp = e.s :> v]

Touch(w, e, ok, v2) ==                      \* a call that puts variable e.s into state v2, or must be refused
    LET v == w.V[e.s]
    IN IF ok THEN [Res([w EXCEPT !.V[e.s] = IF e.ok = 1 THEN v2 ELSE v],
                       Ck(e.ok = 1, "P07", e.op \o " on a " \o v.k \o " threw: " \o (IF e.ok = 1 THEN "" ELSE e.err)))
                   EXCEPT !.exp = IF e.ok = 1 THEN e.s :> v2 ELSE <<>>]
       ELSE Res(w, Ck(e.ok = 0, "P07", e.op \o " accepted a vector of the wrong size for a " \o v.k))

JVarSet(w, e) == Touch(w, e, Len(e.d) = Len(w.V[e.s].x), IF Len(e.d) = Len(w.V[e.s].x) THEN Set(w.V[e.s], e.d) ELSE w.V[e.s])
JVarInc(w, e) == Touch(w, e, Len(e.d) = Len(w.V[e.s].x), IF Len(e.d) = Len(w.V[e.s].x) THEN Plus(w.V[e.s], e.d) ELSE w.V[e.s])
JVarMem(w, e) == [Touch(w, e, TRUE, SetBy(w.V[e.s], e.w, e.d)) EXCEPT !.man = (e.w # "lim")]   \* new limits act on the next set or increment

StaleIn(w, s) == [w EXCEPT !.G = [g \in DOMAIN @ |-> IF s \in Range(@[g].vs) \/ (\E i \in 1..Len(@[g].fs) : s \in Range(w.F[@[g].fs[i]].vs)) THEN FlagChanged(@[g]) ELSE @[g]]]
JSetConst(w, e) ==
    LET w2 == IF w.V[e.s].c = (e.c = 1) THEN w ELSE StaleIn([w EXCEPT !.V[e.s].c = (e.c = 1)], e.s)
    IN Res(w2, Ck(e.ok = 1, "P07", "set_constant threw"))

Obs(r) == [t |-> r.t, id |-> r.id, n |-> r.n, c |-> r.c, x |-> r.x, a |-> r.a]
JClone(w, e) ==
    LET v == w.V[e.s]
        mine == { i \in 1..Len(e.ch) : e.ch[i].s = e.to }
    IN ResF([w EXCEPT !.V = Cloned(@, e.s, e.to), !.R = [t \in DOMAIN @ \ {e.to} |-> @[t]]],
            Ck(e.ok = 1, "P09", "clone() threw") \cup
            (IF e.ok = 0 THEN {} ELSE
             Ck(e.same = 0, "P09", "clone() of a " \o v.k \o " returned the object itself") \cup
             Ck(mine # {} /\ e.s \in DOMAIN w.R /\ \A i \in mine :
                   LET c == e.ch[i]  o == w.R[e.s]
                   IN c.t = o.t /\ c.id = o.id /\ c.n = o.n /\ c.c = o.c /\ SameVec(c.x, o.x)
                      /\ Len(c.a) = Len(o.a) /\ \A k \in 1..Len(c.a) : SameVec(c.a[k], o.a[k]),
                "P09", "the clone of a " \o v.k \o " differs from the original")), "P09")
JDrop(w, e) == Res([w EXCEPT !.V = Dropped(@, e.s), !.R = [t \in DOMAIN @ \ {e.s} |-> @[t]]], {})

\* ---------------------------------------------------------------- factors
\* what a factor says about itself (P33)
FTypeOf == [bear |-> "bearing_observation", irb |-> "inverse_range_bearing", bp2 |-> "bearing_observation", b2 |-> "bearing_observation_2d", rb2 |-> "range_bearing_2d",
            p2p |-> "pose_2d_prior", p2b |-> "pose_2d_between", gp |-> "generic_prior", gb |-> "generic_between", lv |-> "generic_between",
            ppp |-> "pose_position_prior", pop |-> "pose_orientation_prior", ppb |-> "pose_position_between", pob |-> "pose_orientation_between",
            rp |-> "pose_orientation_prior", ct |-> "custom", pl |-> "plane_factor", plp |-> "plane_prior", usr |-> "custom"]
\* kinds whose name is a class name and the names of their variables; the others are named after type and id
Titled == [b2 |-> "BearingObservationFactor2D", rb2 |-> "RangeBearingFactor2D", p2p |-> "Pose2DPriorFactor", p2b |-> "Pose2DBetweenFactor", gp |-> "GenericPriorFactor",
           gb |-> "GenericBetweenFactor", ppp |-> "PosePositionPriorFactor", pop |-> "PoseOrientationPriorFactor", ppb |-> "PosePositionBetweenFactor",
           pl |-> "PlaneFactor", plp |-> "PlanePriorFactor"]
RECURSIVE Joined(_, _, _)
Joined(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o Joined(ss, sep, i + 1)
FName(f, names) ==
    CASE f.k \in DOMAIN Titled -> Titled[f.k] \o "(" \o Joined(names, ", ", 1) \o ")"
      [] f.k = "bp2" -> "BearingProjection2D_" \o Str(f.id) \o "(" \o Joined(names, ",", 1) \o ")"
      [] f.k = "rp"  -> "RotationPriorFactor" \o Str(f.id) \o "(" \o names[1] \o ")"
      [] f.k = "ct"  -> "CoordinateTransformFactor" \o Str(f.id)
      [] OTHER       -> FTypeOf[f.k] \o Str(f.id)
Weights(f) == CASE f.k \in {"usr", "plp"} -> <<>>
                [] f.k \in {"rb2", "p2p", "p2b"} -> <<RDiv(One, f.d[1]), RDiv(One, f.d[2])>>
                [] OTHER -> <<RDiv(One, f.d[1])>>
Observation(f) == CASE f.k \in {"bear", "irb", "bp2"} -> VNormalize(Seg(f.d, 2, 3))
                    [] f.k = "b2"  -> <<f.d[2]>>
                    [] f.k = "rb2" -> <<f.d[3], f.d[4]>>
                    [] f.k = "ct"  -> Weights(f)
                    [] OTHER -> <<>>
SelfBad(w, f, e) ==
    Ck(e.fid = f.id, "P33", "id() of a factor of kind " \o f.k \o " is not its id") \cup
    Ck(e.fv = f.vs, "P33", "variables() of a factor of kind " \o f.k \o " is not the list given") \cup
    (IF HasNull(f) THEN {} ELSE
     Ck(e.ty = FTypeOf[f.k], "P33", "type() of a factor of kind " \o f.k \o " is " \o e.ty) \cup
     Ck(e.nm = FName(f, [i \in 1..Len(f.vs) |-> NameOf(w.V[f.vs[i]])]), "P33", "name() of a factor of kind " \o f.k \o " is " \o e.nm) \cup
     Ck(VClose(e.ws, Weights(f), Rel(e.ws, RLit("1e-12"))), "P33", "a weight of a factor of kind " \o f.k \o " is not the inverse of its sigma") \cup
     Ck(VClose(e.fa, Observation(f), Rel(e.fa, RLit("1e-12"))), "P33", "a factor of kind " \o f.k \o " states another observation"))
JFacq(w, e) == LET f == w.F[e.s] IN ResF(w, Ck(e.rs = f.rs, "P33", "residual_size() of a factor of kind " \o f.k \o " changed") \cup SelfBad(w, f, e), "P33")
JFac(w, e) ==
    LET f == [k |-> e.k, id |-> e.id, vs |-> e.vs, d |-> e.d, n |-> e.n, rs |-> IF e.ok = 1 THEN e.rs ELSE 0, arm |-> FALSE]
    IN IF e.ok = 0 THEN Res(w, {<<"P16", "constructing a factor of kind " \o e.k \o " threw: " \o e.err>>})
       ELSE ResF([w EXCEPT !.F = Put(@, e.s, f), !.M = Put(@, <<"lastj", e.s>>, <<>>)],
                 IF HasNull(f) THEN {} ELSE SelfBad(w, f, e) \cup
                 (IF IsUsr(f) THEN {} ELSE
                  Ck(e.rs = ResidualSize(f, Xs(w, f)), "P16", "residual_size() of a factor of kind " \o e.k)), "P16")

Rel9(v) == Rel(v, RLit("1e-9"))
Values(w, f) == [i \in 1..Len(f.vs) |-> <<w.V[f.vs[i]].x, w.V[f.vs[i]].c>>]

\* the documented residual: clause of P10..P14
DocResidual(w, f, r, text) ==
    IF IsUsr(f) \/ ~Documented(f, Xs(w, f)) THEN {}
    ELSE IF ResidualOk(f, Xs(w, f), r) THEN {}
    ELSE IF KnownP2b(f, Xs(w, f), r) THEN {<<"KNOWN", "P11 Pose2DBetweenFactor(local_frame=true) rotates p_b - p_a by R(theta_a) instead of its transpose">>}
    ELSE {<<PropOf(f), text \o " of a factor of kind " \o f.k \o " is not the documented one">>}

JFres(w, e) ==
    LET f == w.F[e.s]  n == f.rs
        mem == <<"fres", e.s>>
        old == Get(w.M, mem, <<>>)
        xs == Xs(w, f)
    IN IF e.ok = 0 THEN ResF(w, Ck(f.arm, "P16", "compute_residual() of a factor of kind " \o f.k \o " threw"), "P16")
       ELSE ResF([w EXCEPT !.M = Put(@, mem, [x |-> Values(w, f), r |-> e.r1, y |-> IF f.k = "bp2" THEN VNormalize(CamDir(xs)) ELSE <<>>])],
              Ck(e.rs = n /\ Len(e.r1) = n, "P16", "the residual of a factor of kind " \o f.k \o " does not have residual_size() entries") \cup
              Ck(VClose(e.r1, e.r2, Rel9(e.r1)), "P16", "the two residual overloads of a factor of kind " \o f.k \o " disagree") \cup
              Ck(Len(e.r3) = n + 5 /\ VClose(SubSeq(e.r3, 3, n + 2), e.r1, Rel9(e.r1)), "P16", "the residual of a factor of kind " \o f.k \o " is not written into the given segment") \cup
              Ck(Len(e.r3) = n + 5 /\ \A i \in {1, 2, n + 3, n + 4, n + 5} : e.r3[i] = ROfInt(777), "P16", "a factor of kind " \o f.k \o " writes outside the given segment") \cup
              Ck(VClose(e.r4, e.r1, Rel9(e.r1)), "P16", "evaluating a factor of kind " \o f.k \o " again gives another residual") \cup
              (IF old # <<>> /\ old.x = Values(w, f) THEN Ck(VClose(e.r1, old.r, Rel9(old.r)), "P16", "a factor of kind " \o f.k \o " gives another residual for the same values") ELSE {}) \cup
              UNION { DocResidual(w, f, r, "the residual") : r \in {e.r1, e.r2, e.r4} \cup (IF Len(e.r3) = n + 5 THEN {SubSeq(e.r3, 3, n + 2)} ELSE {}) } \cup
              (IF f.k = "bp2" /\ old # <<>> /\ Documented(f, xs) /\ Len(e.r1) = 2
                  /\ Parts(f, xs)[1].t = "tan"
                  /\ RLt(f.d[5], VDot(old.y, VNormalize(Seg(f.d, 2, 3))))
               THEN Ck(TanPair(f, xs, e.r1, old.y, old.r), "P10", "the residual components of BearingProjectionFactor2D are not taken along one orthonormal tangent basis")
               ELSE {}), "P16")

WellFormed(w, f, js) ==
    /\ Len(js) = Len(f.vs)
    /\ \A i \in 1..Len(f.vs) :
         IF w.V[f.vs[i]].c THEN js[i].r = 0 \/ js[i].c = 0
         ELSE Shape(js[i], f.rs, Len(w.V[f.vs[i]].x))
JFjac(w, e) ==
    LET f == w.F[e.s]  mem == <<"lastj", e.s>>  old == Get(w.M, mem, <<>>)
    IN IF e.ok = 0 THEN ResF(w, Ck(f.arm \/ (f.k \in {"bear", "irb", "b2", "rb2"} /\ ~Documented(f, Xs(w, f))), "P16", "compute_jacobians() of a factor of kind " \o f.k \o " threw"), "P16")
       ELSE LET wf == WellFormed(w, f, e.j)
            IN ResF([w EXCEPT !.M = Put(@, mem, IF wf THEN [x |-> Values(w, f), j |-> e.j] ELSE <<>>)],
                 Ck(wf, "P16", "the Jacobian container of a factor of kind " \o f.k \o " is malformed (start mode " \o Str(e.mode) \o ")") \cup
                 (IF wf /\ old # <<>> /\ old.x = Values(w, f)
                  THEN Ck(\A i \in 1..Len(e.j) : w.V[f.vs[i]].c \/ SameMat(e.j[i].m, old.j[i].m), "P16",
                          "the Jacobians of a factor of kind " \o f.k \o " depend on the previous contents of the container (start mode " \o Str(e.mode) \o ")")
                  ELSE {}), "P16")

\* ------------------------------------------------- derivatives (P15, P26)
\* q = residuals at increments -2h, -h, h, 2h: five-point and two-point derivative
Der5(q, h) == VScale(RDiv(One, RMul(ROfInt(12), h)), VSub(VScale(ROfInt(8), VSub(q[3], q[2])), VSub(q[4], q[1])))
Der2(q, h) == VScale(RDiv(Half, h), VSub(q[3], q[2]))
InsideLimits(v, h) == v.k = "ir" => RLe(v.m[3], RSub(v.x[1], RMul(Two, h))) /\ RLe(RAdd(v.x[1], RMul(Two, h)), v.m[4])
\* the derivative with respect to one variable, as a list of columns; <<>> where it is not defined
Columns(fd, h) == [c \in 1..Len(fd) |-> Der5(fd[c], h)]
Smooth(fd, h, sc) == \A c \in 1..Len(fd) : RAllFinite(Der5(fd[c], h)) /\ VClose(Der5(fd[c], h), Der2(fd[c], h), RMul(RLit("1e-2"), sc))
RECURSIVE ResMax(_)
ResMax(fd) == IF fd = <<>> THEN Zero ELSE RMax(RMaxAbs(Head(fd)[1]), RMax(RMaxAbs(Head(fd)[4]), ResMax(Tail(fd))))
DerTol(cols, fd, h, rel) == RAdd(RMul(rel, MatMax(cols)), RDiv(RMul(RLit("2e-12"), RAdd(One, ResMax(fd))), h))

\* variables of f at which the recorded differences decide the derivative
Decided(w, f, e) ==
    { i \in 1..Len(f.vs) :
        LET v == w.V[f.vs[i]]
        IN ~v.c /\ InsideLimits(v, e.h[i]) /\ Len(e.fd[i]) = Len(v.x)
           /\ Smooth(e.fd[i], e.h[i], RAdd(RLit("1e-3"), MatMax(Columns(e.fd[i], e.h[i])))) }
JFd(w, e) ==
    LET f == w.F[e.s]
    IN IF e.ok = 0 THEN ResF(w, {<<"P15", "evaluating a factor of kind " \o f.k \o " threw">>}, "P16")
       ELSE LET dec == Decided(w, f, e)
                cols == [i \in dec |-> Columns(e.fd[i], e.h[i])]
            IN ResF([w EXCEPT !.M = Put(@, <<"fd", e.s>>, [x |-> Values(w, f), cols |-> cols, tol |-> [i \in dec |-> DerTol(cols[i], e.fd[i], e.h[i], RLit("1e-4"))],
                                                           rmax |-> [i \in dec |-> ResMax(e.fd[i])]])],
                 IF ~WellFormed(w, f, e.j) THEN {<<"P15", "the Jacobian of a factor of kind " \o f.k \o " has the wrong shape">>}
                 ELSE UNION { Ck(MClose(MT(e.j[i].m), cols[i], DerTol(cols[i], e.fd[i], e.h[i], RLit("1e-5"))), "P15",
                                 "the Jacobian of a factor of kind " \o f.k \o " with respect to variable " \o Str(i) \o " is not the derivative of its residual") : i \in dec }, "P16")
\* (the logarithm of a rotation is only accurate to about 1e-10 near the identity, which a difference quotient magnifies)
JNumJ(w, e) ==
    LET f == w.F[e.s]  m == Get(w.M, <<"fd", e.s>>, <<>>)
    IN IF e.ok = 0 THEN ResF(w, {<<"P26", "ComputeNumericalJacobians threw">>}, "P26")
       ELSE ResF(w,
              Ck(WellFormed(w, f, e.j), "P26", "numerical Jacobians of a factor of kind " \o f.k \o " are malformed") \cup
              (IF WellFormed(w, f, e.j) /\ m # <<>> /\ m.x = Values(w, f)
               THEN UNION { LET v == w.V[f.vs[i]]  h == IF e.eps = Zero THEN RLit("1e-6") ELSE e.eps
                                noise == IF f.k \in {"pop", "pob", "rp"} THEN RDiv(RLit("1e-9"), f.d[1]) ELSE RMul(RLit("1e-13"), RAdd(One, m.rmax[i]))
                                \* the matrix of a pose is rounded to the identity for angles below 1e-8
                                snap == IF v.k = "pose" /\ RLt(VNorm(Seg(v.x, 4, 3)), RAdd(h, RLit("1e-7"))) THEN RMul(RLit("2e-8"), MatMax(m.cols[i])) ELSE Zero
                            IN Ck(MClose(MT(e.j[i].m), m.cols[i], RAdd(m.tol[i], RDiv(RAdd(noise, snap), h))), "P26",
                               "the numerical Jacobian of a factor of kind " \o f.k \o " is not its derivative") : i \in DOMAIN m.cols }
               ELSE {}), "P26")

\* ------------------------------------------------------------ Huber (P27)
HuberScale(n, d) == IF RLe(n, d) THEN One ELSE RDiv(RSqrt(RSub(RMul(RMul(Two, d), n), RMul(d, d))), n)
HuberJac(r, J, d) ==
    LET n == VNorm(r)  s == HuberScale(n, d)
        q == RMul(s, n)                                             \* norm of the transformed residual
        ds == RSub(RDiv(d, RMul(n, q)), RDiv(q, RMul(n, n)))         \* d s / d n beyond delta
    IN IF RLe(n, d) THEN J
       ELSE MAdd(MScale(s, J), Outer(VScale(RDiv(ds, n), r), MVec(MT(J), r)))
JHuber(w, e) ==
    LET n == VNorm(e.r)  d == e.delta
        near == RLe(RAbs(RSub(n, d)), RMul(RLit("1e-12"), d))
        hr == VScale(HuberScale(n, d), e.r)
        okr == e.ok = 1 /\ Len(e.hr) = Len(e.r)
    IN Res(w,
         Ck(e.ok = 1, "P27", "HuberKernel threw") \cup
         (IF e.ok = 0 THEN {} ELSE
          Ck(okr /\ VClose(e.hr, hr, Rel(hr, RLit("1e-10"))), "P27", "the transformed residual is not that of the Huber loss") \cup
          Ck(e.dd = d, "P27", "delta() is not the value given") \cup
          Ck(Len(e.jo) = Len(e.ji), "P27", "the number of Jacobians changed") \cup
          (IF Len(e.jo) # Len(e.ji) THEN {} ELSE
           UNION { LET a == e.ji[i]  b == e.jo[i]
                       x == IF a.m = <<>> \/ a.c = 0 THEN <<>> ELSE HuberJac(e.r, a.m, d)
                   IN IF a.r = 0 \/ a.c = 0 THEN Ck(b.r = a.r /\ b.c = a.c, "P27", "an empty Jacobian did not stay empty")
                      ELSE Ck(b.r = a.r /\ b.c = a.c /\ (near \/ MClose(b.m, x, RMul(RLit("1e-9"), RAdd(One, MatMax(x))))), "P27",
                              "the transformed Jacobian is not the derivative of the transformed residual") : i \in 1..Len(e.ji) })))

\* ------------------------------------------------------------ SO(3) (P08)
JExp(w, e) == Res(w, Ck(e.ok = 1 /\ MClose(e.r, Exp(e.d), RLit("1e-12")), "P08", "ExpMapSO3 is not the rotation by its vector"))
JLog(w, e) == Res(w, Ck(e.ok = 1 /\ IsLogOf(e.r, Mat(e.d, 3, 3), TolRot), "P08", "LogMapSO3 does not return a logarithm of length at most pi"))
JExpLog(w, e) ==
    Res(w, Ck(e.ok = 1 /\ MClose(e.e, Exp(e.d), RLit("1e-12")), "P08", "ExpMapSO3 is not the rotation by its vector") \cup
           Ck(e.ok = 1 /\ IsLogOf(e.r, Exp(e.d), TolRot), "P08", "LogMapSO3(ExpMapSO3(w)) is not a logarithm of that rotation") \cup
           Ck(e.ok = 1 /\ (RLe(RLit("3.13"), VNorm(e.d)) \/ VClose(e.r, e.d, RMul(RLit("1e-5"), RMin(RLit("1e-3"), VNorm(e.d))))), "P08", "LogMapSO3(ExpMapSO3(w)) is not w"))
JSkew(w, e) == Res(w, Ck(e.ok = 1 /\ MClose(e.r, Skew(e.d), Rel(e.d, RLit("1e-15"))), "P08", "skew_symmetric(v) x is not v cross x") \cup
                      Ck(e.ok = 1 /\ SameVec(e.u, e.d), "P08", "unskew does not invert skew_symmetric"))
JUnskew(w, e) == Res(w, Ck(e.ok = 1 /\ SameVec(e.r, Unskew(Mat(e.d, 3, 3))), "P08", "unskew is not the vector of the antisymmetric part"))
\* derivative of Log(Exp(d) Exp(w)) in d at 0 is the inverse of the left Jacobian at w
JIJac(w, e) == Res(w, Ck(e.ok = 1 /\ MClose(MMul(e.r, LeftJac(e.d)), I3, RLit("1e-8")), "P08", "compute_inverse_right_jacobian_so3 is not the derivative of Log(Exp(d) Exp(w))"))

\* -------------------------------------------------------- stopwatch (P28)
\* a time is an interval <<earliest, latest>> of clock readings
SwZero == <<Zero, Zero>>
SwPlus(acc, since, t) == << RAdd(acc[1], RMax(Zero, RSub(t[1], since[2]))), RAdd(acc[2], RSub(t[2], since[1])) >>
SwTol == RLit("1e-6")
JSw(w, e) ==
    LET k == <<"sw", e.s>>  s == Get(w.M, k, NewWatch(SwZero))  t == <<e.t0, e.t1>>
        Go(x) == [w EXCEPT !.M = Put(@, k, x)]
    IN CASE e.a = "start" -> Res(Go(WStart(s, t)), {})
         [] e.a = "stop"  -> Res(Go(WStop(s, t, SwPlus)), {})
         [] e.a = "reset" -> Res(Go(NewWatch(SwZero)), {})
         [] e.a = "elapsed" -> LET b == WTotal(s, t, SwPlus)
                               IN Res(w, Ck(RLe(RSub(b[1], SwTol), e.e) /\ RLe(e.e, RAdd(b[2], SwTol)), "P28",
                                            "elapsed() is " \o RStr(e.e) \o ", running time was between " \o RStr(b[1]) \o " and " \o RStr(b[2])))
         [] OTHER -> Res(w, {})
=============================================================================
