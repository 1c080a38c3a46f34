------------------------------ MODULE MCGraph -------------------------------
(***************************************************************************)
(* Every history of structural and computing calls on one factor graph,    *)
(* built from the same operators (GraphCore) that judge recorded traces.   *)
(* TLC explores all of it up to MaxParts variables and factors, checks the *)
(* invariants below, and prints every transition as "T|from|call|to"; the  *)
(* check turns the transitions into behaviours that cover each of them and *)
(* replays those into the real library (see checks/mc.py).                 *)
(*                                                                         *)
(* The pool: variables 0..4 (0 and 2 share an id; 3 is constant at first), *)
(* factors 0..4 (0 and 2 share an id, 4 refers to a null variable).        *)
(* Values are abstract: what a cache serves is <<the structure it was       *)
(* computed for, 0 or -1 once the variables' values changed since>>.       *)
(***************************************************************************)
EXTENDS GraphCore, TLC
CONSTANTS MaxParts, Full

VSlots == 0..3
FSlots == 0..4
IdOf(s)   == CASE s = 0 -> 5 [] s = 1 -> 7 [] s = 2 -> 5 [] s = 3 -> 0
SizeOf(s) == CASE s = 0 -> 2 [] s = 1 -> 1 [] s = 2 -> 3 [] s = 3 -> 3
FIdOf(f)  == CASE f = 0 -> 1 [] f = 1 -> 9 [] f = 2 -> 1 [] f = 3 -> 0 [] f = 4 -> 4
RowsOf(f) == CASE f = 0 -> 3 [] f = 1 -> 2 [] f = 2 -> 2 [] f = 3 -> 3 [] f = 4 -> 1
VarsOf(f) == CASE f = 0 -> <<0>> [] f = 1 -> <<1, 0>> [] f = 2 -> <<1>> [] f = 3 -> <<3, 1>> [] f = 4 -> <<None>>

VARIABLES g,        \* the graph (GraphCore)
          const,    \* set of constant variables
          at,       \* ghost: what each cache should serve (not consulted by any action)
          out       \* ghost: what the last call did: "ok", "throws", "?" (unspecified)
vars == <<g, const, at, out>>

ConstOf(s) == s \in const
Can == Finalizable(g, SizeOf, ConstOf, RowsOf, VarsOf)
NVal == NumValues(g, SizeOf, ConstOf)

Key(h, c) == LET C(x) == IF x.st = "yes" THEN (IF x.v[2] = -1 THEN "o" ELSE "y") ELSE IF x.st = "no" THEN "n" ELSE "m"
             IN ToString(<<h.vs, h.fs, h.fin, h.stale, c>>) \o C(h.cr) \o C(h.cj) \o C(h.cs)

Init == g = EmptyGraph /\ const = {3} /\ at = [r |-> <<>>, j |-> <<>>, s |-> <<>>] /\ out = "ok"
        /\ PrintT("I|" \o Key(g, const))

\* ------------------------------------------------------------------- calls
AddV(s) == IF CanAdd(g.vs, s, IdOf) THEN g' = AddVariable(g, s) /\ out' = "ok" ELSE g' = g /\ out' = "throws"
AddF(f) == IF CanAdd(g.fs, f, FIdOf) THEN g' = AddFactor(g, f) /\ out' = "ok" ELSE g' = g /\ out' = "throws"
Fin     == IF Can THEN g' = Finalized(g) /\ out' = "ok" ELSE g' = Restructured(g) /\ out' = "throws"
Compute(h) == IF ~g.fin THEN g' = g /\ out' = "throws" ELSE IF g.stale THEN g' = g /\ out' = "?" ELSE g' = h /\ out' = "ok"
Here == <<g.rev, 0>>
\* the values served by a cache do not change when the variables do; only their being current does
Aged == LET Old(c) == IF c.st = "yes" THEN Cached(<<c.v[1], -1>>) ELSE c IN [g EXCEPT !.cr = Old(@), !.cj = Old(@), !.cs = Old(@)]
Age == [k \in DOMAIN at |-> IF at[k] = <<>> THEN <<>> ELSE <<at[k][1], -1>>]

Step(op) ==
    CASE op[1] = "addv" -> AddV(op[2]) /\ UNCHANGED <<const, at>>
      [] op[1] = "addf" -> AddF(op[2]) /\ UNCHANGED <<const, at>>
      [] op[1] = "fin"  -> Fin /\ UNCHANGED <<const, at>>
      [] op[1] = "resid" -> Compute(AfterResid(g, op[2] = 0, Here)) /\ at' = (IF out' = "ok" /\ op[2] = 0 THEN [at EXCEPT !.r = Here] ELSE at) /\ UNCHANGED <<const>>
      [] op[1] = "jac"  -> Compute(AfterJac(g, Here)) /\ at' = (IF out' = "ok" THEN [at EXCEPT !.j = Here] ELSE at) /\ UNCHANGED <<const>>
      [] op[1] = "sjac" -> Compute(AfterSJac(g, Here)) /\ at' = (IF out' = "ok" THEN [at EXCEPT !.s = Here] ELSE at) /\ UNCHANGED <<const>>
      [] op[1] = "both" -> Compute(AfterBoth(g, Here, Here)) /\ at' = (IF out' = "ok" THEN [at EXCEPT !.r = Here, !.j = Here] ELSE at) /\ UNCHANGED <<const>>
      [] op[1] = "acc"  -> LET c == CASE op[2] = 0 -> g.cr [] op[2] = 1 -> g.cj [] OTHER -> g.cs
                           IN out' = (IF g.stale THEN "?" ELSE CASE c.st = "no" -> "throws" [] c.st = "yes" -> "ok" [] OTHER -> "?") /\ UNCHANGED <<g, const, at>>
      [] op[1] = "setx" -> (IF op[2] = 0 THEN out' = "ok" /\ at' = Age /\ g' = Aged ELSE out' = "throws" /\ UNCHANGED <<at, g>>) /\ UNCHANGED <<const>>
      [] op[1] = "incx" -> (IF ~g.fin THEN out' = "throws" /\ UNCHANGED <<at, g>> ELSE IF g.stale THEN FALSE /\ UNCHANGED <<out, at, g>>
                            ELSE IF op[2] = 0 THEN out' = "ok" /\ at' = Age /\ g' = Aged ELSE out' = "throws" /\ UNCHANGED <<at, g>>) /\ UNCHANGED <<const>>
      [] op[1] = "vset" -> out' = "ok" /\ at' = Age /\ g' = Aged /\ UNCHANGED <<const>>
      [] op[1] = "setc" -> out' = "ok" /\ const' = (IF op[2] \in const THEN const \ {op[2]} ELSE const \cup {op[2]})
                           /\ g' = (IF op[2] \in Range(g.vs) \cup UNION { Range(VarsOf(f)) : f \in Range(g.fs) } THEN FlagChanged(g) ELSE g) /\ UNCHANGED <<at>>
      [] OTHER -> out' = "ok" /\ UNCHANGED <<g, const, at>>            \* lists, lay, flags, getx: observers
Calls == { <<"addv", s>> : s \in VSlots } \cup { <<"addf", f>> : f \in FSlots } \cup
         { <<"fin", 0>>, <<"resid", 0>>, <<"resid", 1>>, <<"jac", 0>>, <<"sjac", 0>>, <<"both", 0>>,
           <<"setx", 0>>, <<"setx", 1>>, <<"incx", 0>>, <<"incx", 1>>, <<"vset", 0>>, <<"setc", 0>> } \cup
         { <<"acc", x>> : x \in 0..2 } \cup { <<"lists", 0>>, <<"lay", 0>>, <<"flags", 0>>, <<"getx", 0>> } \cup
         (IF Full THEN { <<"setc", 3>>, <<"vset", 1>> } ELSE {})

CanAddOp(op) == IF op[1] = "addv" THEN CanAdd(g.vs, op[2], IdOf) ELSE CanAdd(g.fs, op[2], FIdOf)
Next == \E op \in Calls :
            /\ op[1] \in {"addv", "addf"} => (Len(g.vs) + Len(g.fs) < MaxParts \/ ~CanAddOp(op))
            /\ (g.stale => op[1] \in {"addv", "addf", "fin", "setc", "lists"})   \* a stale layout is unspecified: leave it
            /\ Step(op)
            /\ PrintT("T|" \o Key(g, const) \o "|" \o op[1] \o " " \o ToString(op[2]) \o "|" \o Key(g', const'))
Spec == Init /\ [][Next]_vars
View == Key(g, const)

\* -------------------------------------------------------------- properties
UniqueIds == /\ \A i, j \in 1..Len(g.vs) : i # j => IdOf(g.vs[i]) # IdOf(g.vs[j])
             /\ \A i, j \in 1..Len(g.fs) : i # j => FIdOf(g.fs[i]) # FIdOf(g.fs[j])
LookupExact == \A id \in 0..9 : LET s == Lookup(g.vs, id, IdOf)
                                IN IF \E i \in 1..Len(g.vs) : IdOf(g.vs[i]) = id THEN s \in Range(g.vs) /\ IdOf(s) = id ELSE s = None
\* columns of non-constant variables and rows of factors: consecutive, without gap or overlap, covering everything
Cols(i) == { ColOffset(g, i, SizeOf, ConstOf) + k : k \in 0..(Dim(g.vs[i], SizeOf, ConstOf) - 1) }
Rows(i) == { RowOffset(g, i, RowsOf) + k : k \in 0..(RowsOf(g.fs[i]) - 1) }
LayoutTight == /\ UNION { Cols(i) : i \in 1..Len(g.vs) } = 0..(NVal - 1)
               /\ \A i, j \in 1..Len(g.vs) : i < j => \A a \in Cols(i), b \in Cols(j) : a < b
               /\ UNION { Rows(i) : i \in 1..Len(g.fs) } = 0..(NumResiduals(g, RowsOf) - 1)
               /\ \A i, j \in 1..Len(g.fs) : i < j => \A a \in Rows(i), b \in Rows(j) : a < b
FinalizedIsSound == g.fin /\ ~g.stale => Can
\* nothing computed for an older structure is ever served, and what is served was computed last
CachesFollow == LET Ok(c, a) == c.st = "yes" => g.fin /\ a # <<>> /\ a[1] = g.rev /\ c.v = a
                IN Ok(g.cr, at.r) /\ Ok(g.cj, at.j) /\ Ok(g.cs, at.s)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* actions: the lists only grow, at the end; a refused call changes nothing that can be seen; structure changes drop everything
OnlyAppends == [][Prefix(g.vs, g'.vs) /\ Prefix(g.fs, g'.fs)]_vars
StructureDropsAll == [][(g'.vs # g.vs \/ g'.fs # g.fs) => ~g'.fin /\ g'.cr.st = "no" /\ g'.cj.st = "no" /\ g'.cs.st = "no"]_vars
RefusedChangesNothing == [][out' = "throws" => g'.vs = g.vs /\ g'.fs = g.fs /\ const' = const /\ (~g'.fin \/ g' = g)]_vars
RevMonotone == [][g'.rev >= g.rev /\ (g'.rev = g.rev => g'.vs = g.vs /\ g'.fs = g.fs /\ g'.fin = g.fin)]_vars
=============================================================================
