------------------------------ MODULE Factors -------------------------------
(***************************************************************************)
(* The documented residual of every built-in factor.  A factor is a record *)
(*   [k |-> kind, id, vs |-> variable slots, d |-> real parameters,        *)
(*    n |-> integer parameters]                                            *)
(* xs is the sequence of the variable records it refers to.  Sigmas come   *)
(* first in d.  Kinds of user-defined factors of the harness are not here: *)
(* only generic properties are stated of them.                             *)
(***************************************************************************)
EXTENDS Variables

W(f, i) == RDiv(One, f.d[i])                     \* weight of the i-th sigma
NumSigmas(f) == CASE f.k \in {"rb2", "p2p", "p2b", "plp"} -> 2 [] OTHER -> 1
MaxW(f) == RDiv(One, VMin(SubSeq(f.d, 1, NumSigmas(f))))

\* the landmark a 3D bearing factor looks at
Target(v) == IF v.k = "ir" THEN IrPoint(v) ELSE v.x
CamDir(xs) == MVec(RotOf(xs[1]), VSub(Target(xs[2]), PosOf(xs[1])))
\* landmark in the frame of a 2D pose
Local2(xs) == MVec(MT(Rot2(xs[1].x[3])), VSub(Seg(xs[2].x, 1, 2), Seg(xs[1].x, 1, 2)))
RelDir(f, xs) == CASE f.k \in {"bear", "irb", "bp2"} -> CamDir(xs) [] f.k \in {"b2", "rb2"} -> Local2(xs) [] OTHER -> <<One>>

\* p_b - p_a of a 2D between factor, in the documented frame: R(theta_a)^T (p_b - p_a)
Rel2(f, xs) == LET dw == VSub(Seg(xs[2].x, 1, 2), Seg(xs[1].x, 1, 2))
               IN IF f.n[1] = 0 THEN dw ELSE MVec(MT(Rot2(xs[1].x[3])), dw)
\* ... and the form the implementation is known to compute instead (see KNOWN_FINDINGS): R(theta_a) (p_b - p_a)
Rel2Known(f, xs) == LET dw == VSub(Seg(xs[2].x, 1, 2), Seg(xs[1].x, 1, 2))
                    IN IF f.n[1] = 0 THEN dw ELSE MVec(Rot2(xs[1].x[3]), dw)
Rel3(f, xs) == LET dw == VSub(PosOf(xs[2]), PosOf(xs[1]))
               IN IF f.n[1] = 0 THEN dw ELSE MVec(RotOf(xs[1]), dw)

\* A residual is described as a sequence of parts:
\*   [t |-> "lin", v |-> vector]          the entries are exactly v
\*   [t |-> "ang", a |-> angle, w |-> w]  one entry w * wrap(a)
\*   [t |-> "rot", m |-> matrix, w |-> w] three entries w * Log(m)
\*   [t |-> "tan", y, b, w]               two entries: w * components of y along some orthonormal tangent basis of b
Lin(v) == [t |-> "lin", v |-> v]
Ang(a, w) == [t |-> "ang", a |-> a, w |-> w]
RotP(m, w) == [t |-> "rot", m |-> m, w |-> w]

Parts(f, xs) ==
    LET k == f.k  d == f.d  w == W(f, 1)
    IN CASE k \in {"bear", "irb"} ->
              << Lin(VScale(w, VSub(VNormalize(CamDir(xs)), VNormalize(Seg(d, 2, 3))))) >>
         [] k = "bp2" ->
              LET y == VNormalize(CamDir(xs))  b == VNormalize(Seg(d, 2, 3))
              IN IF RLe(VDot(y, b), d[5]) THEN << Lin(<<w, w>>) >> ELSE << [t |-> "tan", y |-> y, b |-> b, w |-> w] >>
         [] k = "b2" -> LET l == Local2(xs) IN << Ang(RSub(RAtan2(l[2], l[1]), d[2]), w) >>
         [] k = "rb2" -> LET l == Local2(xs)
                         IN << Lin(<<RMul(w, RSub(VNorm(l), d[3]))>>), Ang(RSub(RAtan2(l[2], l[1]), d[4]), W(f, 2)) >>
         [] k = "p2p" -> << Lin(VScale(w, VSub(Seg(xs[1].x, 1, 2), Seg(d, 3, 2)))), Ang(RSub(xs[1].x[3], d[5]), W(f, 2)) >>
         [] k = "p2b" -> << Lin(VScale(w, VSub(Rel2(f, xs), Seg(xs[3].x, 1, 2)))),
                            Ang(RSub(RSub(xs[2].x[3], xs[1].x[3]), xs[3].x[3]), W(f, 2)) >>
         [] k = "gp" -> << Lin(VScale(w, VSub(xs[1].x, Tail(d)))) >>
         [] k = "gb" -> << Lin(VScale(w, VSub(VSub(xs[2].x, xs[1].x), xs[3].x))) >>
         [] k = "lv" -> LET n == Len(xs[3].x)  i == f.n[1] + 1
                        IN << Lin(VScale(w, VSub(VSub(Seg(xs[2].x, i, n), Seg(xs[1].x, i, n)), VScale(d[2], xs[3].x)))) >>
         [] k = "ppp" -> << Lin(VScale(w, VSub(PosOf(xs[1]), Tail(d)))) >>
         [] k = "pop" -> << RotP(MMul(RotOf(xs[1]), MT(Mat(Tail(d), 3, 3))), w) >>
         [] k = "ppb" -> << Lin(VScale(w, VSub(Rel3(f, xs), xs[3].x))) >>
         [] k = "pob" -> << RotP(MMul(RotOf(xs[2]), MMul(MT(RotOf(xs[1])), RotOf(xs[3]))), w) >>
         [] k = "rp" -> << RotP(MMul(RotOf(xs[1]), MT(Mat(Tail(d), 3, 3))), w) >>
         [] k = "ct" -> \* variables in the order of the constructor: rotation, origin, scale, landmark in A, landmark in B
              << Lin(VScale(w, VSub(xs[4].x, VSub(VScale(xs[3].x[1], MVec(RotOf(xs[1]), xs[5].x)), xs[2].x)))) >>
         [] k = "pl" ->
              LET n == Seg(xs[2].x, 1, 3)  e == RAdd(VDot(n, xs[1].x), xs[2].x[4])
              IN << Lin(<< RMul(w, IF f.n[1] # 1 THEN e
                                   ELSE RDiv(e, RAdd(One, RDiv(VNorm(VSub(xs[1].x, Seg(d, 3, 3))), d[2])))) >>) >>
         [] k = "plp" ->
              LET n == Seg(xs[1].x, 1, 3)  e == VSub(n, VNormalize(Seg(d, 3, 3)))
              IN << Lin(VScale(w, VSub(e, VScale(VDot(n, e), n)))), Lin(<<RMul(W(f, 2), RSub(xs[1].x[4], d[6]))>>) >>

PartLen(p) == CASE p.t = "lin" -> Len(p.v) [] p.t = "ang" -> 1 [] p.t = "rot" -> 3 [] p.t = "tan" -> 2
RECURSIVE PartsLen(_)
PartsLen(ps) == IF ps = <<>> THEN 0 ELSE PartLen(Head(ps)) + PartsLen(Tail(ps))
ResidualSize(f, xs) == PartsLen(Parts(f, xs))

\* rounding allowance for the residual of f: relative to its weight and the size of what it subtracts,
\* amplified when a direction is taken of a short vector
RECURSIVE AllMax(_)
AllMax(xs) == IF xs = <<>> THEN Zero
              ELSE RMax(AllMax(Tail(xs)), RMax(RMaxAbs(Head(xs).x), IF Head(xs).k = "ir" THEN RMaxAbs(IrPoint(Head(xs))) ELSE Zero))
RECURSIVE VMaxOver(_, _, _)
VMaxOver(xs, P(_), i) == IF i > Len(xs) THEN Zero ELSE RMax(RMaxAbs(P(i)), VMaxOver(xs, P, i + 1))
Scale(f, xs) == RAdd(One, RMax(AllMax(xs), RMaxAbs(f.d)))
ResTol(f, xs) ==
    IF f.k \in {"gp", "gb", "lv", "ppp"} THEN      \* sums and differences: exact but for the last digits, however small
        LET P(i) == IF xs[i].k = "pose" THEN PosOf(xs[i]) ELSE xs[i].x
            m == RMax(IF f.k \in {"gp", "ppp"} THEN RMaxAbs(Tail(f.d)) ELSE Zero, VMaxOver(xs, P, 1))
        IN RMul(RMul(RLit("1e-12"), MaxW(f)), IF f.k = "lv" THEN RMul(m, RAdd(One, RAbs(f.d[2]))) ELSE m)
    ELSE
    LET s == Scale(f, xs)
        g == RMax(One, RDiv(s, VNorm(RelDir(f, xs))))
        q == CASE f.k = "ct" -> RMul(s, s) [] f.k = "lv" -> RMul(s, s) [] OTHER -> s
        tiny == \E i \in 1..Len(xs) : xs[i].k \in {"pose", "rot"} /\ DcmTol(IF xs[i].k = "pose" THEN Seg(xs[i].x, 4, 3) ELSE xs[i].x) = TolTinyRot
        base == IF tiny THEN TolTinyRot ELSE RLit("1e-9")
    \* (taking the direction of a short difference magnifies the rounding of the difference, not the error of the rotation)
    IN RMul(MaxW(f), CASE f.k \in {"bear", "irb", "bp2", "b2"} -> RAdd(base, RMul(RLit("1e-13"), g))
                       [] f.k = "rb2" -> RMul(q, RAdd(base, RMul(RLit("1e-13"), g)))
                       [] OTHER -> RMul(base, RMul(q, g)))

PartOk(p, r, tol) ==
    CASE p.t = "lin" -> VClose(r, p.v, tol)
      [] p.t = "ang" -> LET a == RDiv(r[1], p.w)
                        IN RLe(RAbs(a), RAdd(PiR, RLit("1e-12"))) /\ SameAngle(a, p.a, RDiv(tol, p.w))
      [] p.t = "rot" -> LET v == VScale(RDiv(One, p.w), r)
                        IN RLe(VNorm(v), RAdd(PiR, RLit("1e-8"))) /\ MClose(Exp(v), p.m, TolTinyRot)
      [] p.t = "tan" -> \* components of y along a basis of the plane orthogonal to b: any basis, so only the length is
                        \* fixed here (TanPair fixes the angle between two observations of one factor)
                        LET c == VDot(p.y, p.b)
                            n == RMul(p.w, RSqrt(RMax(Zero, RSub(One, RMul(c, c)))))
                            pr == VNorm(Cross(p.y, p.b))
                        IN Close(VNorm(r), RMul(p.w, pr), tol)

RECURSIVE PartsOk(_, _, _, _)
PartsOk(ps, r, i, tol) ==
    IF ps = <<>> THEN TRUE
    ELSE PartOk(Head(ps), Seg(r, i, PartLen(Head(ps))), tol) /\ PartsOk(Tail(ps), r, i + PartLen(Head(ps)), tol)

\* r is the documented residual of f at xs
ResidualOk(f, xs, r) ==
    LET ps == Parts(f, xs) IN Len(r) = PartsLen(ps) /\ PartsOk(ps, r, 1, ResTol(f, xs))

\* The residual is documented there: directions of non-zero vectors only, and (bp2) not within rounding of its switch
Documented(f, xs) ==
    CASE f.k \in {"bear", "irb", "b2", "rb2"} -> RLt(RLit("1e-7"), VNorm(RelDir(f, xs)))
      [] f.k = "bp2" -> /\ RLt(RLit("1e-7"), VNorm(CamDir(xs)))
                        /\ ~Close(VDot(VNormalize(CamDir(xs)), VNormalize(Seg(f.d, 2, 3))), f.d[5], RLit("1e-9"))
      [] OTHER -> TRUE

\* Known finding of P11: the only explanation accepted for a mismatch of a local-frame 2D between factor
KnownP2b(f, xs, r) ==
    /\ f.k = "p2b" /\ f.n[1] # 0
    /\ Len(r) = 3
    /\ VClose(Seg(r, 1, 2), VScale(W(f, 1), VSub(Rel2Known(f, xs), Seg(xs[3].x, 1, 2))), ResTol(f, xs))
    /\ PartOk(Ang(RSub(RSub(xs[2].x[3], xs[1].x[3]), xs[3].x[3]), W(f, 2)), <<r[3]>>, ResTol(f, xs))

\* Two observations (y1, r1), (y2, r2) of one bp2 factor: r . r' = w^2 (projected y . projected y'), so the
\* components are taken along one orthonormal basis up to the choice of that basis.
TanPair(f, xs1, r1, y2, r2) ==
    LET p == Parts(f, xs1)[1]
    IN p.t = "tan" =>
         LET c1 == VDot(p.y, p.b)  c2 == VDot(y2, p.b)
             g  == RMul(RMul(p.w, p.w), RSub(VDot(p.y, y2), RMul(c1, c2)))
         IN Close(VDot(r1, r2), g, RMul(RLit("1e-8"), RMul(p.w, p.w)))

PropOf(f) == CASE f.k \in {"bear", "irb", "bp2"} -> "P10"
               [] f.k \in {"b2", "rb2", "p2p", "p2b"} -> "P11"
               [] f.k \in {"gp", "gb", "lv", "ppp", "ppb"} -> "P12"
               [] f.k \in {"pop", "pob", "rp", "ct"} -> "P13"
               [] f.k \in {"pl", "plp"} -> "P14"
=============================================================================
