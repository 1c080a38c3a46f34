----------------------------- MODULE GraphCore ------------------------------
(***************************************************************************)
(* The structural life of a factor graph: what is in it, when it is        *)
(* finalized, how it lays out columns and rows, and what its caches may    *)
(* serve.  Both the model MCGraph (explored exhaustively by TLC) and the   *)
(* trace specification use these operators, so what TLC proves about them  *)
(* is proved about the judge of the implementation.                        *)
(*                                                                         *)
(* A graph is a record                                                     *)
(*   vs, fs  sequences of variable / factor slots in insertion order       *)
(*   fin     finalized for exactly this content                            *)
(*   stale   a constant flag changed since (unspecified until finalized)   *)
(*   rev     counts structural changes                                     *)
(*   cr, cj, cs  caches of residual, dense and sparse Jacobian:            *)
(*     [st |-> "no" | "yes" | "maybe", v |-> value served]                 *)
(* Operators that need facts about variables and factors take them as      *)
(* operator arguments: Id, Size, Const of a variable slot, FId, Rows, Vars *)
(* of a factor slot.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1                                  \* the slot of a null pointer
NoCache == [st |-> "no", v |-> <<>>]
EmptyGraph == [vs |-> <<>>, fs |-> <<>>, fin |-> FALSE, stale |-> FALSE, rev |-> 0,
               cr |-> NoCache, cj |-> NoCache, cs |-> NoCache]

Range(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
SumOf(s, Of(_)) == SumInts([i \in 1..Len(s) |-> Of(s[i])])

\* ------------------------------------------------------------------ registry
IdsOf(s, Id(_)) == { Id(s[i]) : i \in 1..Len(s) }
CanAdd(s, slot, Id(_)) == Id(slot) \notin IdsOf(s, Id)
Lookup(s, id, Id(_)) ==                     \* the slot added under id, or None
    LET h == { i \in 1..Len(s) : Id(s[i]) = id } IN IF h = {} THEN None ELSE s[CHOOSE i \in h : TRUE]

\* Everything computed for the old structure is gone
Restructured(g) == [g EXCEPT !.fin = FALSE, !.stale = FALSE, !.rev = @ + 1, !.cr = NoCache, !.cj = NoCache, !.cs = NoCache]
AddVariable(g, slot) == Restructured([g EXCEPT !.vs = Append(@, slot)])
AddFactor(g, slot)   == Restructured([g EXCEPT !.fs = Append(@, slot)])

\* ------------------------------------------------------------------- layout
Dim(slot, Size(_), Const(_)) == IF Const(slot) THEN 0 ELSE Size(slot)
NumValues(g, Size(_), Const(_)) == LET D(s) == Dim(s, Size, Const) IN SumOf(g.vs, D)
NumResiduals(g, Rows(_)) == SumOf(g.fs, Rows)
\* columns before the i-th variable, rows before the i-th factor (0-based offsets)
ColOffset(g, i, Size(_), Const(_)) == LET D(s) == Dim(s, Size, Const) IN SumOf(SubSeq(g.vs, 1, i - 1), D)
RowOffset(g, i, Rows(_)) == SumOf(SubSeq(g.fs, 1, i - 1), Rows)
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

VarsOk(g, f, Vars(_), Const(_)) ==
    \A i \in 1..Len(Vars(f)) : LET v == Vars(f)[i] IN v # None /\ (Const(v) \/ v \in Range(g.vs))
Finalizable(g, Size(_), Const(_), Rows(_), Vars(_)) ==
    /\ \A i \in 1..Len(g.fs) : VarsOk(g, g.fs[i], Vars, Const)
    /\ NumResiduals(g, Rows) >= NumValues(g, Size, Const)
Finalized(g) == [Restructured(g) EXCEPT !.fin = TRUE]

\* ------------------------------------------------------------------- caches
Cached(v) == [st |-> "yes", v |-> v]
Maybe == [st |-> "maybe", v |-> <<>>]
\* what a computation leaves behind (own: residual computed into the graph's own cache, not into the caller's vector)
AfterResid(g, own, v) == [g EXCEPT !.cr = IF own THEN Cached(v) ELSE IF @.st = "yes" THEN @ ELSE Maybe]
AfterJac(g, v)        == [g EXCEPT !.cj = Cached(v)]
AfterSJac(g, v)       == [g EXCEPT !.cs = Cached(v)]
AfterBoth(g, r, j)    == [g EXCEPT !.cr = Cached(r), !.cj = Cached(j)]
\* a computation that threw half way
FailedResid(g) == [g EXCEPT !.cr = Maybe]
FailedJac(g)   == [g EXCEPT !.cj = Maybe]
FailedSJac(g)  == [g EXCEPT !.cs = Maybe]
FailedBoth(g)  == [g EXCEPT !.cr = Maybe, !.cj = Maybe]
\* a constant flag changed: until the next finalize_structure() nothing is specified
FlagChanged(g) == [g EXCEPT !.stale = g.fin]
=============================================================================
