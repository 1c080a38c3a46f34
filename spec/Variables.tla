----------------------------- MODULE Variables ------------------------------
(***************************************************************************)
(* The state space of every kind of variable, its operations, and the      *)
(* views its accessors give.                                               *)
(*                                                                         *)
(* A variable is a record                                                  *)
(*   [k |-> kind, id |-> user id, c |-> constant?, x |-> value vector,     *)
(*    m |-> meta]                                                          *)
(* kinds: pose (position, rotation vector), lm (landmark), gen (generic),  *)
(* rot (rotation vector), ir (inverse range; m = <<origin, bearing,        *)
(* lower limit, upper limit>>), plane (unit normal, distance), pose2       *)
(* (x, y, heading), usr (a user-defined vector variable).                  *)
(***************************************************************************)
EXTENDS SO3

TypeCode == [pose |-> 1, lm |-> 2, ir |-> 3, rot |-> 4, gen |-> 5, plane |-> 6, pose2 |-> 7, usr |-> 8]

TolX   == RLit("1e-9")
TolRot == RLit("1e-8")
TolTinyRot == RLit("3e-8")     \* a pose stores rotation vectors below 1e-8 as such and shows the identity

Clip(x, lo, hi) == RMin(RMax(x, lo), hi)
Rel(v, tol) == RMul(tol, RAdd(One, RMaxAbs(v)))      \* tolerance for the entries of v

\* --------------------------------------------------------------- rotations
RotOf(v) == IF v.k = "pose" THEN Exp(Seg(v.x, 4, 3)) ELSE Exp(v.x)
PosOf(v) == Seg(v.x, 1, 3)
IrPoint(v) == VAdd(v.m[1], VScale(RDiv(One, v.x[1]), v.m[2]))

\* ------------------------------------------------------------ construction
IrLo == RLit("1e-6")
IrHi == RLit("1e3")
\* The variable a constructor makes from the flat argument list d.
New(k, id, c, d) ==
    LET V(x, m) == [k |-> IF k = "poseR" THEN "pose" ELSE k, id |-> id, c |-> c, x |-> x, m |-> m]
    IN CASE k \in {"pose", "lm", "gen", "usr"} -> V(d, <<>>)
         [] k = "poseR" -> V(Seg(d, 1, 3) \o Log(Mat(Seg(d, 4, 9), 3, 3)), <<>>)
         [] k = "rot"   -> V(Log(Mat(d, 3, 3)), <<>>)
         [] k = "ir"    -> V(<<Clip(RDiv(One, d[7]), IrLo, IrHi)>>, <<Seg(d, 1, 3), VNormalize(Seg(d, 4, 3)), IrLo, IrHi>>)
         [] k = "plane" -> V(VNormalize(Seg(d, 1, 3)) \o <<d[4]>>, <<>>)
         [] k = "pose2" -> V(<<d[1], d[2], Wrap(d[3])>>, <<>>)

\* ------------------------------------------------------ set and increment
Set(v, d) ==
    CASE v.k = "ir"    -> [v EXCEPT !.x = <<Clip(d[1], v.m[3], v.m[4])>>]
      [] v.k = "plane" -> [v EXCEPT !.x = VNormalize(Seg(d, 1, 3)) \o <<d[4]>>]
      [] v.k = "pose2" -> [v EXCEPT !.x = <<d[1], d[2], Wrap(d[3])>>]
      [] OTHER         -> [v EXCEPT !.x = d]

Plus(v, d) ==
    CASE v.k = "pose" -> [v EXCEPT !.x = VAdd(Seg(v.x, 1, 3), Seg(d, 1, 3)) \o Log(MMul(Exp(Seg(d, 4, 3)), RotOf(v)))]
      [] v.k = "rot"  -> [v EXCEPT !.x = Log(MMul(Exp(d), RotOf(v)))]
      [] OTHER        -> Set(v, VAdd(v.x, d))

\* the typed setters
SetBy(v, what, d) ==
    CASE v.k = "pose" /\ what = "pose" -> [v EXCEPT !.x = d]
      [] v.k = "pose" /\ what = "pos"  -> [v EXCEPT !.x = d \o Seg(v.x, 4, 3)]
      [] v.k = "pose" /\ what = "dcm"  -> [v EXCEPT !.x = Seg(v.x, 1, 3) \o Log(Mat(d, 3, 3))]
      [] v.k = "lm"                    -> [v EXCEPT !.x = d]
      [] v.k = "pose2" /\ what = "pos" -> [v EXCEPT !.x = d \o <<v.x[3]>>]
      [] v.k = "pose2" /\ what = "theta" -> [v EXCEPT !.x = <<v.x[1], v.x[2], Wrap(d[1])>>]
      [] v.k = "ir" /\ what = "lim"    -> [v EXCEPT !.m = <<v.m[1], v.m[2], d[1], d[2]>>]

\* --------------------------------------------------------- equality of states
\* rotation vectors denote the same rotation (they may differ near the angle pi)
SameRot(a, b) == MClose(Exp(a), Exp(b), TolRot)
\* headings differ by a multiple of 2 pi
SameAngle(a, b, tol) == RLe(RAbs(Wrap(RSub(a, b))), tol)
\* what is only copied or added is exact but for the last digits, however small it is
LinTol(y) == RAdd(RMul(RLit("1e-12"), RMaxAbs(y)), RLit("1e-15"))
\* x is the value y up to rounding, for a variable of kind k; rot vectors that resulted from a logarithm
SameValue(k, x, y) ==
    /\ Len(x) = Len(y)
    /\ CASE k \in {"lm", "gen", "usr"} -> VClose(x, y, LinTol(y))
         [] k = "pose" -> VClose(Seg(x, 1, 3), Seg(y, 1, 3), LinTol(Seg(y, 1, 3))) /\ SameRot(Seg(x, 4, 3), Seg(y, 4, 3))
         [] k = "rot"  -> SameRot(x, y)
         [] k = "pose2" -> VClose(Seg(x, 1, 2), Seg(y, 1, 2), LinTol(Seg(y, 1, 2))) /\ SameAngle(x[3], y[3], TolX)
         [] OTHER -> VClose(x, y, Rel(y, TolX))

\* --------------------------------------------------- the manifold invariants
OnManifold(v) ==
    CASE v.k = "pose2" -> RLe(RAbs(v.x[3]), RAdd(PiR, RLit("1e-12")))
      [] v.k = "plane" -> Close(VNorm(Seg(v.x, 1, 3)), One, TolX)
      [] v.k = "ir"    -> RLe(v.m[3], v.x[1]) /\ RLe(v.x[1], v.m[4])
      [] OTHER -> TRUE
\* rotation vectors produced by a logarithm have length at most pi
Canonical(v) ==
    CASE v.k = "pose" -> RLe(VNorm(Seg(v.x, 4, 3)), RAdd(PiR, TolX))
      [] v.k = "rot"  -> RLe(VNorm(v.x), RAdd(PiR, TolX))
      [] OTHER -> TRUE

\* --------------------------------------------------------------------- views
ProbePoint == <<RLit("1.5"), RLit("-2.25"), RLit("0.5")>>     \* where the driver asks planes for a distance
VEq(u, v) == VClose(u, v, Rel(v, RLit("1e-13")))
DcmTol(w) == IF RLt(VNorm(w), RLit("1e-7")) THEN TolTinyRot ELSE TolRot
DcmOk(m, w) == IsRotation(m, TolRot) /\ MClose(m, Exp(w), DcmTol(w))

\* a is the list of accessor results the driver recorded for variable v: those that disagree with v.x
BadViews(v, a) ==
    CASE v.k = "pose" ->
            { t \in {"pos_W", "rot_CW", "dcm_CW"} :
                ~ CASE t = "pos_W"  -> VEq(a[1], Seg(v.x, 1, 3))
                    [] t = "rot_CW" -> VEq(a[2], Seg(v.x, 4, 3))
                    [] OTHER        -> DcmOk(<<a[3], a[4], a[5]>>, Seg(v.x, 4, 3)) }
      [] v.k = "lm" -> { t \in {"pos_W"} : ~VEq(a[1], v.x) }
      [] v.k = "rot" ->
            { t \in {"rotation", "dcm_AB"} :
                ~ CASE t = "rotation" -> DcmOk(<<a[1], a[2], a[3]>>, v.x)
                    [] OTHER          -> DcmOk(<<a[4], a[5], a[6]>>, v.x) }
      [] v.k = "ir" ->
            { t \in {"origin_pos_W", "bearing_W", "inverse_range", "pos_W", "limits"} :
                ~ CASE t = "origin_pos_W" -> VEq(a[1], v.m[1])
                    [] t = "bearing_W"    -> VClose(a[2], v.m[2], TolX)
                    [] t = "inverse_range" -> VEq(a[3], v.x)
                    [] t = "limits"       -> VEq(a[5], <<v.m[3], v.m[4]>>)
                    [] OTHER              -> VClose(a[4], IrPoint(v), Rel(IrPoint(v), TolX)) }
      [] v.k = "plane" ->
            { t \in {"unit_vector", "distance_from_origin", "distance_from_point"} :
                ~ CASE t = "unit_vector" -> VEq(a[1], Seg(v.x, 1, 3))
                    [] t = "distance_from_origin" -> VEq(a[2], <<v.x[4]>>)
                    [] OTHER -> Close(a[3][1], RAdd(VDot(Seg(v.x, 1, 3), ProbePoint), v.x[4]), Rel(v.x, TolX)) }
      [] v.k = "pose2" ->
            { t \in {"pos_2d", "theta", "dcm_2d"} :
                ~ CASE t = "pos_2d" -> VEq(a[1], Seg(v.x, 1, 2))
                    [] t = "theta"  -> VEq(a[2], <<v.x[3]>>)
                    [] OTHER        -> MClose(<<a[3], a[4]>>, Rot2(v.x[3]), TolX) }
      [] OTHER -> {}
=============================================================================
