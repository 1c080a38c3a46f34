------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Common vocabulary of the trace specification.                           *)
(*                                                                         *)
(* The world w is the specification's state:                               *)
(*   V variables by slot, R their last recorded observations, F factors,   *)
(*   G graphs, O optimizers, M memories of single clauses.                 *)
(* For every recorded call e the action of the specification yields        *)
(*   [w |-> next world, f |-> violated clauses <<property, text>>,         *)
(*    exp |-> variables the call must leave in a given state,              *)
(*    free |-> variables it may change arbitrarily,                        *)
(*    xp, fp |-> properties charged for a wrong resp. an unexpected change, *)
(*    man |-> the call puts variables on their manifold]                   *)
(***************************************************************************)
EXTENDS Factors, GraphCore, TLC

Fresh == [V |-> <<>>, R |-> <<>>, F |-> <<>>, G |-> <<>>, O |-> <<>>, M |-> <<>>]

Ck(cond, prop, text) == IF cond THEN {} ELSE {<<prop, text>>}
Info(text) == {<<"INFO", text>>}                    \* not a failure: counts what was judged, for the evidence
Res(w, f) == [w |-> w, f |-> f, exp |-> <<>>, free |-> {}, xp |-> "P07", fp |-> "P07", man |-> TRUE]
ResF(w, f, fp) == [Res(w, f) EXCEPT !.fp = fp]
Put(fn, k, v) == (k :> v) @@ fn
Has(e, k) == k \in DOMAIN e
Get(fn, k, default) == IF k \in DOMAIN fn THEN fn[k] ELSE default

\* facts about slots, in the form GraphCore wants them
IsUsr(f) == f.k = "usr"
Xs(w, f) == [i \in 1..Len(f.vs) |-> w.V[f.vs[i]]]
HasNull(f) == \E i \in 1..Len(f.vs) : f.vs[i] < 0
Graph(w, g) == Get(w.G, g, EmptyGraph)

GId(w, s) == w.V[s].id
GSize(w, s) == Len(w.V[s].x)
GConst(w, s) == w.V[s].c
GRows(w, f) == w.F[f].rs
GVars(w, f) == w.F[f].vs

NV(w, g) == LET S(s) == GSize(w, s)  C(s) == GConst(w, s) IN NumValues(g, S, C)
NR(w, g) == LET R(f) == GRows(w, f) IN NumResiduals(g, R)
ColOf(w, g, i) == LET S(s) == GSize(w, s)  C(s) == GConst(w, s) IN ColOffset(g, i, S, C)
RowOf(w, g, i) == LET R(f) == GRows(w, f) IN RowOffset(g, i, R)
DimOf(w, s) == IF w.V[s].c THEN 0 ELSE Len(w.V[s].x)
CanFinalize(w, g) == LET S(s) == GSize(w, s)  C(s) == GConst(w, s)  R(f) == GRows(w, f)  U(f) == GVars(w, f)
                     IN Finalizable(g, S, C, R, U)

\* concatenation of the values of the non-constant variables
RECURSIVE StateVec(_, _)
StateVec(w, vs) == IF vs = <<>> THEN <<>>
                   ELSE (IF w.V[Head(vs)].c THEN <<>> ELSE w.V[Head(vs)].x) \o StateVec(w, Tail(vs))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* fj: for every factor of g the list of its Jacobian blocks (a list of rows; <<>> when empty)
BlocksFit(w, g, fj) ==
    /\ Len(fj) = Len(g.fs)
    /\ \A i \in 1..Len(fj) :
         LET f == w.F[g.fs[i]]
         IN /\ Len(fj[i]) = Len(f.vs)
            /\ \A k \in 1..Len(f.vs) :
                 LET v == w.V[f.vs[k]]
                 IN IF v.c THEN fj[i][k] = <<>>
                    ELSE Len(fj[i][k]) = f.rs /\ \A r \in 1..f.rs : Len(fj[i][k][r]) = Len(v.x)

\* one row of the full Jacobian: blk[k] is that row of the block of the k-th variable, at[k] its first column
RECURSIVE PlaceRow(_, _, _)
PlaceRow(row, blk, at) ==
    IF blk = <<>> THEN row
    ELSE LET b == Head(blk)  a == Head(at)
         IN PlaceRow(IF b = <<>> THEN row
                     ELSE SubSeq(row, 1, a) \o VAdd(SubSeq(row, a + 1, a + Len(b)), b) \o SubSeq(row, a + Len(b) + 1, Len(row)),
                     Tail(blk), Tail(at))
\* the documented Jacobian: every block at the rows of its factor and the columns of its variable, zero elsewhere
Assemble(w, g, fj) ==
    LET n == NV(w, g)
        cols == [i \in 1..Len(g.vs) |-> ColOf(w, g, i)]
        Rows(i) == LET f == w.F[g.fs[i]]
                       at == [k \in 1..Len(f.vs) |-> IF f.vs[k] \in Range(g.vs) THEN cols[PosIn(g.vs, f.vs[k])] ELSE 0]
                   IN [r \in 1..f.rs |-> PlaceRow(VZero(n), [k \in 1..Len(f.vs) |-> IF fj[i][k] = <<>> THEN <<>> ELSE fj[i][k][r]], at)]
    IN Concat([i \in 1..Len(g.fs) |-> Rows(i)])

TolCopy == RLit("1e-12")
SameVec(u, v) == VClose(u, v, Rel(v, TolCopy))
RECURSIVE MatMax(_)
MatMax(m) == IF m = <<>> THEN Zero ELSE RMax(RMaxAbs(Head(m)), MatMax(Tail(m)))
SameMat(a, b) == MClose(a, b, RMul(TolCopy, RAdd(One, MatMax(b))))
Shape(m, r, c) == m.r = r /\ m.c = c
Str(x) == ToString(x)
=============================================================================
