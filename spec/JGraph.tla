------------------------------- MODULE JGraph -------------------------------
(***************************************************************************)
(* Calls on factor graphs.                                                 *)
(***************************************************************************)
EXTENDS JVar

SetG(w, g, x) == [w EXCEPT !.G = Put(@, g, x)]
Known(e, g) == g.fin /\ ~g.stale            \* the specification says what the call must do

\* ------------------------------------------------------------- P01 registry
JAddV(w, e) ==
    LET g == Graph(w, e.g)  Id(s) == w.V[s].id
        can == CanAdd(g.vs, e.s, Id)
    IN IF can THEN ResF(SetG(w, e.g, IF e.ok = 1 THEN AddVariable(g, e.s) ELSE g), Ck(e.ok = 1, "P01", "add_variable() refused a new id"), "P01")
       ELSE ResF(SetG(w, e.g, IF e.ok = 1 THEN AddVariable(g, e.s) ELSE g), Ck(e.ok = 0, "P01", "add_variable() accepted an id that is already used"), "P01")
JAddF(w, e) ==
    LET g == Graph(w, e.g)  Id(s) == w.F[s].id
        can == CanAdd(g.fs, e.s, Id)
    IN IF can THEN ResF(SetG(w, e.g, IF e.ok = 1 THEN AddFactor(g, e.s) ELSE g), Ck(e.ok = 1, "P01", "add_factor() refused a new id"), "P01")
       ELSE ResF(SetG(w, e.g, IF e.ok = 1 THEN AddFactor(g, e.s) ELSE g), Ck(e.ok = 0, "P01", "add_factor() accepted an id that is already used"), "P01")
JGetV(w, e) ==
    LET g == Graph(w, e.g)  Id(s) == w.V[s].id
    IN ResF(w, Ck(e.ok = 1 /\ e.r = Lookup(g.vs, e.id, Id), "P01", "get_variable(" \o Str(e.id) \o ") is not the variable added under that id"), "P01")
OfKind(w, g, k) == SelectSeq(g.vs, LAMBDA s : w.V[s].k = k)
JLists(w, e) ==
    LET g == Graph(w, e.g)
        C(cond, t) == Ck(cond, "P01", t)
    IN ResF(w, Ck(e.ok = 1, "P01", "listing the graph threw") \cup
         (IF e.ok = 0 THEN {} ELSE
          C(e.vs = g.vs, "get_all_variables() is not the list of added variables in order") \cup
          C(e.fs = g.fs, "get_all_factors() is not the list of added factors in order") \cup
          C(e.num = Len(g.vs), "num_variables() is not the number of variables") \cup
          C(e.tpose = OfKind(w, g, "pose") /\ e.tlm = OfKind(w, g, "lm") /\ e.tgen = OfKind(w, g, "gen") /\ e.trot = OfKind(w, g, "rot")
            /\ e.tir = OfKind(w, g, "ir") /\ e.tplane = OfKind(w, g, "plane") /\ e.tpose2 = OfKind(w, g, "pose2"),
            "get_variables_of_type() is not the sublist of that type")), "P01")

\* --------------------------------------------------------------- P02 layout
LayoutBad(w, g, e) ==
    Ck(e.nv = NV(w, g), "P02", "num_values() is " \o Str(e.nv) \o ", not " \o Str(NV(w, g))) \cup
    Ck(e.nr = NR(w, g), "P02", "num_residuals() is " \o Str(e.nr) \o ", not " \o Str(NR(w, g))) \cup
    Ck(e.unk = 0, "P02", "variable_placement() of an unknown id is reported valid") \cup
    Ck(e.vm = Len(g.vs) /\ e.fm = Len(g.fs), "P02", "the placement maps do not have one entry per variable and factor") \cup
    (IF Len(e.vp) # Len(g.vs) \/ Len(e.fp) # Len(g.fs) THEN {<<"P02", "placements are missing">>} ELSE
     UNION { LET p == e.vp[i]  s == g.vs[i]
             IN Ck(p[1] = s /\ p[2] = 1 /\ p[5] = s, "P02", "variable " \o Str(i) \o " has no placement of its own")
                \cup Ck(p[4] = DimOf(w, s) /\ (w.V[s].c \/ p[3] = ColOf(w, g, i)), "P02",
                        "variable " \o Str(i) \o " is placed at " \o Str(<<p[3], p[4]>>) \o ", not at " \o Str(<<ColOf(w, g, i), DimOf(w, s)>>)) : i \in 1..Len(g.vs) } \cup
     UNION { LET p == e.fp[i]  f == g.fs[i]
             IN Ck(p[1] = f /\ p[2] = 1 /\ p[3] = RowOf(w, g, i) /\ p[4] = w.F[f].rs, "P02",
                   "factor " \o Str(i) \o " is placed at " \o Str(<<p[3], p[4]>>) \o ", not at " \o Str(<<RowOf(w, g, i), w.F[f].rs>>)) : i \in 1..Len(g.fs) })

JFin(w, e) ==
    LET g == Graph(w, e.g)  can == CanFinalize(w, g)
        g2 == IF e.ok = 1 THEN Finalized(g) ELSE Restructured(g)
    IN ResF(SetG(w, e.g, g2),
            IF can THEN Ck(e.ok = 1, "P02", "finalize_structure() threw on a graph that can be finalized") \cup (IF e.ok = 1 THEN LayoutBad(w, g2, e) ELSE {})
            ELSE Ck(e.ok = 0, "P02", "finalize_structure() accepted a graph with a null or missing variable or too few residuals"), "P02")
JLay(w, e) ==
    LET g == Graph(w, e.g)
    IN ResF(w, IF Known(e, g) THEN Ck(e.ok = 1, "P02", "reading the layout threw") \cup (IF e.ok = 1 THEN LayoutBad(w, g, e) ELSE {}) ELSE {}, "P02")
JPrint(w, e) == LET g == Graph(w, e.g) IN ResF(w, Ck(g.stale \/ (e.ok = 1) = g.fin, "P03", "print_structure() does not throw exactly while the graph is not finalized") \cup
                                                   (IF e.ok = 1 /\ Known(e, g) THEN StructureBad(w, g, e) ELSE {}), "P03")

\* --------------------------------------------------- P03, P04, P05 computing
MustRefuse(e, g) == Ck(e.ok = 0, "P03", e.op \o " computed for a graph that is not finalized for its contents")
\* a derivative of a direction may not exist
ArmedJ(w, g) == \E i \in 1..Len(g.fs) : LET f == w.F[g.fs[i]] IN f.arm \/ (f.k \in {"bear", "irb", "b2", "rb2"} /\ ~HasNull(f) /\ ~Documented(f, Xs(w, f)))
Armed(w, g) == \E i \in 1..Len(g.fs) : w.F[g.fs[i]].arm
BadRes(w, g, e, r) ==
    LET fr == Concat(e.fr)
    IN IF \E i \in 1..Len(e.fr) : Len(e.fr[i]) # w.F[g.fs[i]].rs THEN {}     \* a factor contradicts its own size: P16
       ELSE Ck(Len(r) = NR(w, g), "P04", "the residual has " \o Str(Len(r)) \o " entries, not " \o Str(NR(w, g))) \cup
            Ck(Len(r) # NR(w, g) \/ SameVec(r, fr), "P04", "the residual (" \o e.op \o ") is not the stack of the factors' residuals")
BadJac(w, g, e, j, what) ==
    IF ~BlocksFit(w, g, e.fj) THEN {}                                         \* a factor's Jacobians are malformed: P16
    ELSE LET J == Assemble(w, g, e.fj)
         IN Ck(Shape(j, NR(w, g), NV(w, g)), "P05", "the " \o what \o " Jacobian is " \o Str(<<j.r, j.c>>) \o ", not " \o Str(<<NR(w, g), NV(w, g)>>)) \cup
            Ck(~Shape(j, NR(w, g), NV(w, g)) \/ NV(w, g) = 0 \/ NR(w, g) = 0 \/ SameMat(j.m, J), "P05", "the " \o what \o " Jacobian is not made of the factors' blocks")

\* P03 of contents: what is served, wherever it is not what it has to be, is what was served for an older structure.
\* Mem: the matrix (rows of reals) last served of each kind, with the revision of the structure it belonged to
OldKey(e, what) == <<"served", e.g, what>>
Keep(w, e, g, what, m) == [w EXCEPT !.M = Put(@, OldKey(e, what), [rev |-> g.rev, m |-> m])]
StaleBad(w, e, g, what, m, want) ==
    IF OldKey(e, what) \notin DOMAIN w.M THEN {}
    ELSE LET o == w.M[OldKey(e, what)]
             Fits == Len(o.m) = Len(m) /\ Len(want) = Len(m) /\ \A i \in 1..Len(m) : Len(m[i]) = Len(o.m[i]) /\ Len(m[i]) = Len(want[i])
             tol == RMul(RLit("1e-9"), RAdd(One, MatMax(want)))
             wrong == IF Fits THEN { i \in 1..Len(m) : ~VClose(m[i], want[i], tol) } ELSE {}
         IN Ck(o.rev = g.rev \/ wrong = {} \/ \E i \in wrong : \E j \in 1..Len(m[i]) : ~Close(m[i][j], want[i][j], tol) /\ m[i][j] # o.m[i][j],
               "P03", e.op \o " served entries that were computed for an older structure")
Served(e, g, text) == Ck(e.ok = 1, "P03", e.op \o text)
StaleJac(w, g, e, j, what) == IF ~BlocksFit(w, g, e.fj) \/ j.r = 0 \/ j.c = 0 THEN {} ELSE StaleBad(w, e, g, what, j.m, Assemble(w, g, e.fj))
JResid(w, e) ==
    LET g == Graph(w, e.g)
    IN IF ~g.fin THEN ResF(w, MustRefuse(e, g), "P04")
       ELSE IF g.stale THEN ResF(w, {}, "P04")
       ELSE IF e.ok = 0 THEN ResF(SetG(w, e.g, FailedResid(g)), Ck(Armed(w, g), "P03", "computing the residual of a finalized graph threw"), "P04")
       ELSE ResF(Keep(SetG(w, e.g, AfterResid(g, e.mode = 0, e.r)), e, g, "r", <<e.r>>), BadRes(w, g, e, e.r) \cup StaleBad(w, e, g, "r", <<e.r>>, <<Concat(e.fr)>>), "P04")
JJac(w, e) ==
    LET g == Graph(w, e.g)
    IN IF ~g.fin THEN ResF(w, MustRefuse(e, g), "P05")
       ELSE IF g.stale THEN ResF(w, {}, "P05")
       ELSE IF e.ok = 0 THEN ResF(SetG(w, e.g, FailedJac(g)), Ck(ArmedJ(w, g), "P03", "computing the Jacobian of a finalized graph threw"), "P05")
       ELSE ResF(Keep(SetG(w, e.g, AfterJac(g, e.j)), e, g, "j", e.j.m), BadJac(w, g, e, e.j, "dense") \cup StaleJac(w, g, e, e.j, "j"), "P05")
JSJac(w, e) ==
    LET g == Graph(w, e.g)
    IN IF ~g.fin THEN ResF(w, MustRefuse(e, g), "P05")
       ELSE IF g.stale THEN ResF(w, {}, "P05")
       ELSE IF e.ok = 0 THEN ResF(SetG(w, e.g, FailedSJac(g)), Ck(ArmedJ(w, g), "P03", "computing the sparse Jacobian of a finalized graph threw"), "P05")
       ELSE ResF(Keep(SetG(w, e.g, AfterSJac(g, e.j)), e, g, "s", e.j.m),
                 StaleJac(w, g, e, e.j, "s") \cup BadJac(w, g, e, e.j, "sparse") \cup Ck(e.bad = 0, "P05", "the sparse Jacobian stores an entry twice or out of range"), "P05")
JBoth(w, e) ==
    LET g == Graph(w, e.g)
    IN IF ~g.fin THEN ResF(w, MustRefuse(e, g), "P05")
       ELSE IF g.stale THEN ResF(w, {}, "P05")
       ELSE IF e.ok = 0 THEN ResF(SetG(w, e.g, FailedBoth(g)), Ck(ArmedJ(w, g), "P03", "computing Jacobian and residual of a finalized graph threw"), "P05")
       ELSE ResF(Keep(Keep(SetG(w, e.g, AfterBoth(g, e.r, e.j)), e, g, "r", <<e.r>>), e, g, "j", e.j.m),
                 StaleBad(w, e, g, "r", <<e.r>>, <<Concat(e.fr)>>) \cup StaleJac(w, g, e, e.j, "j") \cup BadRes(w, g, e, e.r) \cup BadJac(w, g, e, e.j, "dense"), "P05")
\* print_jacobian_and_residual() computes both and prints them
JPJac(w, e) ==
    LET g == Graph(w, e.g)  b == JBoth(w, e)
    IN IF Known(e, g) /\ e.ok = 1 /\ RAllFinite(e.r) THEN [b EXCEPT !.f = @ \cup JacobianTextBad(w, g, e)] ELSE b
JAcc(w, e) ==
    LET g == Graph(w, e.g)
        c == CASE e.w = "r" -> g.cr [] e.w = "j" -> g.cj [] OTHER -> g.cs
        name == CASE e.w = "r" -> "residual()" [] e.w = "j" -> "jacobian()" [] OTHER -> "sparse_jacobian()"
    IN ResF(w, IF g.stale THEN {}
               ELSE CASE c.st = "no" -> Ck(e.ok = 0, "P03", name \o " served something although nothing was computed since finalize_structure()")
                      [] c.st = "yes" -> Ck(e.ok = 1, "P03", name \o " threw although it was computed") \cup
                           (IF e.ok = 0 THEN {}
                            ELSE IF e.w = "r" THEN Ck(SameVec(e.r, c.v), "P03", name \o " is not what was computed last")
                            ELSE Ck(e.j.r = c.v.r /\ e.j.c = c.v.c /\ SameMat(e.j.m, c.v.m), "P03", name \o " is not what was computed last"))
                      [] OTHER -> {}, "P03")
JFlags(w, e) ==
    LET g == Graph(w, e.g)
        F(c, b, t) == Ck(g.stale \/ c.st = "maybe" \/ (b = 1) = (c.st = "yes"), "P03", t)
    IN ResF(w, F(g.cj, e.jv, "jacobian_valid() does not tell whether jacobian() can be served") \cup F(g.cr, e.rv, "residual_valid() does not tell whether residual() can be served"), "P03")

\* ------------------------------------------------------ P06 the state vector
NonConst(w, g) == SelectSeq(g.vs, LAMBDA s : ~w.V[s].c)
JGetX(w, e) ==
    LET g == Graph(w, e.g)
    IN ResF(w, IF ~Known(e, g) THEN {} ELSE
            Ck(e.ok = 1, "P06", "get_variable_vector() threw") \cup
            (IF e.ok = 0 THEN {} ELSE Ck(SameVec(e.x, StateVec(w, g.vs)), "P06", "get_variable_vector() is not the concatenation of the non-constant variables' values")), "P06")
\* slot -> its slice of x
Slices(w, g, x) ==
    LET nc == NonConst(w, g)
        At(i) == 1 + NumValues([g EXCEPT !.vs = SubSeq(nc, 1, i - 1)], LAMBDA s : Len(w.V[s].x), LAMBDA s : FALSE)
    IN [s \in Range(nc) |-> LET i == PosIn(nc, s) IN Seg(x, At(i), Len(w.V[s].x))]
JSetX(w, e) ==
    LET g == Graph(w, e.g)
        n == Len(StateVec(w, g.vs))
    IN IF Len(e.d) # n THEN ResF(w, Ck(e.ok = 0, "P06", "set_variable_values_from_vector() accepted a vector of the wrong size"), "P06")
       ELSE LET sl == Slices(w, g, e.d)
            IN [ResF(w, Ck(e.ok = 1 \/ ~g.fin, "P06", "set_variable_values_from_vector() threw on a vector of the right size"), "P06")
                EXCEPT !.exp = IF e.ok = 1 THEN [s \in DOMAIN sl |-> Set(w.V[s], sl[s])] ELSE <<>>, !.xp = "P06"]
JIncX(w, e) ==
    LET g == Graph(w, e.g)
        n == Len(StateVec(w, g.vs))
    IN IF ~g.fin THEN ResF(w, Ck(e.ok = 0, "P06", "apply_increment() worked on a graph that is not finalized"), "P06")
       ELSE IF g.stale THEN [ResF(w, {}, "P06") EXCEPT !.free = Range(g.vs)]
       ELSE IF Len(e.d) # n THEN ResF(w, Ck(e.ok = 0, "P06", "apply_increment() accepted a vector of the wrong size"), "P06")
       ELSE LET sl == Slices(w, g, e.d)
            IN [ResF(w, Ck(e.ok = 1, "P06", "apply_increment() threw on a vector of the right size"), "P06")
                EXCEPT !.exp = IF e.ok = 1 THEN [s \in DOMAIN sl |-> Plus(w.V[s], sl[s])] ELSE <<>>, !.xp = "P06"]

\* ------------------------------------------- P26 the self test of Jacobians
\* only graphs of user-defined factors of the harness are judged: their Jacobians are known to be right or wrong
FactorVerdict(w, f, tol) ==
    IF f.k # "usr" THEN "?" 
    ELSE IF f.n[1] \in {0, 1, 2, 3} THEN "right"
    ELSE IF f.n[1] = 4 THEN
        LET d == f.d
            m == RMul(d[4], RMaxAbs(Seg(d, 6, f.rs * ((Len(d) - 5 - f.rs) \div f.rs))))
            lim == RMax(RLit("1e-2"), RMul(RAbs(m), tol))
            \* the constant variables are not differentiated: a wrong entry in their columns cannot show
        IN IF w.V[f.vs[f.n[2] + 1]].c THEN "right"
           ELSE IF RLt(RMul(RLit("1.3"), lim), RAbs(d[3])) THEN "wrong"
           ELSE IF RLt(RAbs(d[3]), RMul(RLit("1e-3"), RMin(tol, RLit("1e-2")))) THEN "right" ELSE "?"
    ELSE "?"
JFTest(w, e) ==
    LET g == Graph(w, e.g)
        vd == { FactorVerdict(w, w.F[g.fs[i]], e.tol) : i \in 1..Len(g.fs) }
    IN ResF(w, IF ~g.fin THEN Ck(e.ok = 0, "P26", "detailed_factor_test() worked on a graph that is not finalized")
               ELSE IF g.stale THEN {}
               ELSE Ck(e.ok = 1, "P26", "detailed_factor_test() threw") \cup
                    (IF e.ok = 0 THEN {} ELSE
                     Ck(~("wrong" \in vd) \/ e.r = 0, "P26", "detailed_factor_test() accepted a wrong Jacobian") \cup
                     Ck(vd \notin SUBSET {"right"} \/ e.r = 1, "P26", "detailed_factor_test() rejected a graph whose Jacobians are right")), "P26")
JArm(w, e) == Res([w EXCEPT !.F[e.s].arm = (e.nr > 0 \/ e.nj > 0)], {})
=============================================================================
