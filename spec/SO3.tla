-------------------------------- MODULE SO3 ---------------------------------
(***************************************************************************)
(* Rotations.  These are independent definitions of the maps the library's *)
(* random_utils implement: Exp by Rodrigues' formula written with          *)
(* 2 sin^2(t/2), Log through the unit quaternion (well conditioned for     *)
(* every angle, unlike the acos formula of the code).                      *)
(***************************************************************************)
EXTENDS Vec

Skew(v) == << <<Zero, RNeg(v[3]), v[2]>>, <<v[3], Zero, RNeg(v[1])>>, <<RNeg(v[2]), v[1], Zero>> >>
Unskew(m) == << RMul(Half, RSub(m[3][2], m[2][3])), RMul(Half, RSub(m[1][3], m[3][1])), RMul(Half, RSub(m[2][1], m[1][2])) >>

I3 == MIdent(3)
Outer(u, v) == Force([i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]])

\* I + a [w] + b [w]^2
SkewPoly(w, a, b) == LET K == Skew(w) IN MAdd(I3, MAdd(MScale(a, K), MScale(b, MMul(K, K))))

SmallAngle == RLit("1e-4")
\* sin(t)/t and (1 - cos t)/t^2 and (t - sin t)/t^3, with series near 0
Sinc(t) == IF RLt(t, SmallAngle) THEN RSub(One, RDiv(RMul(t, t), ROfInt(6))) ELSE RDiv(RSin(t), t)
Cosc(t) == LET s == Sinc(RMul(Half, t)) IN RMul(Half, RMul(s, s))
Sin3c(t) == IF RLt(t, RLit("1e-2"))
            THEN LET q == RMul(t, t) IN RSub(RDiv(One, ROfInt(6)), RMul(q, RSub(RDiv(One, ROfInt(120)), RDiv(q, ROfInt(5040)))))
            ELSE RDiv(RSub(t, RSin(t)), RMul(t, RMul(t, t)))

Exp(w) == LET t == VNorm(w) IN SkewPoly(w, Sinc(t), Cosc(t))

\* Left Jacobian of SO(3): Exp(w + d) = Exp(LeftJac(w) d) Exp(w) to first order
LeftJac(w) == LET t == VNorm(w) IN SkewPoly(w, Cosc(t), Sin3c(t))

\* Unit quaternion <<w, x, y, z>> of a rotation matrix (the largest component decides the branch)
Quat(m) ==
    LET tr == RAdd(m[1][1], RAdd(m[2][2], m[3][3]))
        qw == RAdd(One, tr)
        qx == RSub(RAdd(One, m[1][1]), RAdd(m[2][2], m[3][3]))
        qy == RSub(RAdd(One, m[2][2]), RAdd(m[1][1], m[3][3]))
        qz == RSub(RAdd(One, m[3][3]), RAdd(m[1][1], m[2][2]))
        ax == RSub(m[3][2], m[2][3])
        ay == RSub(m[1][3], m[3][1])
        az == RSub(m[2][1], m[1][2])
        xy == RAdd(m[1][2], m[2][1])
        xz == RAdd(m[1][3], m[3][1])
        yz == RAdd(m[2][3], m[3][2])
        big == RMax(RMax(qw, qx), RMax(qy, qz))
        q  == CASE qw = big -> <<qw, ax, ay, az>>
                [] qx = big -> <<ax, qx, xy, xz>>
                [] qy = big -> <<ay, xy, qy, yz>>
                [] OTHER    -> <<az, xz, yz, qz>>
    IN VNormalize(q)

\* The rotation vector of length at most pi of a rotation matrix
Log(m) ==
    LET q0 == Quat(m)
        q  == IF RLt(q0[1], Zero) THEN VScale(ROfInt(-1), q0) ELSE q0
        v  == Seg(q, 2, 3)
        n  == VNorm(v)
    IN IF RLt(n, RLit("1e-9")) THEN VScale(RDiv(Two, q[1]), v)
       ELSE VScale(RDiv(RMul(Two, RAtan2(n, q[1])), n), v)

\* m is a proper rotation up to tol
IsRotation(m, tol) == MClose(MMul(m, MT(m)), I3, tol) /\ Close(Det3(m), One, tol)

\* w is a logarithm of m of length at most pi
IsLogOf(w, m, tol) == RLe(VNorm(w), RAdd(PiR, RLit("1e-9"))) /\ MClose(Exp(w), m, tol)

Wrap(a) == RAtan2(RSin(a), RCos(a))
Rot2(t) == << <<RCos(t), RNeg(RSin(t))>>, <<RSin(t), RCos(t)>> >>
=============================================================================
