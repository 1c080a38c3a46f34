-------------------------------- MODULE MCVec --------------------------------
(***************************************************************************)
(* The Java versions of Vec's operators agree, bit for bit, with their     *)
(* TLA+ definitions, on vectors and matrices of every small size whose     *)
(* entries include the awkward numbers (zeros of both signs, huge, tiny,   *)
(* infinite, NaN).                                                         *)
(***************************************************************************)
EXTENDS Vec
CONSTANT N
VARIABLES n, m, k

Pool == << RLit("0"), RLit("-0.0"), RLit("1"), RLit("-2.5"), RLit("0.1"), RLit("1e-200"), RLit("3e200"), RLit("-7e-9"),
           RLit("123.456"), RDiv(RLit("1"), RLit("0")), RLit("1e-16"), RLit("-1e16"), RDiv(RLit("0"), RLit("0")) >>
\* an arbitrary, deterministic filling; the first half of the seeds leave infinities and NaN out
E(i, j) == LET c == (i * 7 + j * 5 + k * (i + 2 * j + 3) + k * k) IN Pool[1 + (c % (IF k % 2 = 0 THEN 9 ELSE 13))]
Vc(len, o) == [i \in 1..len |-> E(i, o)]
Mx(r, c, o) == [i \in 1..r |-> [j \in 1..c |-> E(i + o, j)]]
\* NaN is one value, whatever its bits
Same(a, b) == a = b \/ (RNaN(a) /\ RNaN(b))
SameV(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Same(u[i], v[i])
SameM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameV(a[i], b[i])

Init == n \in 0..N /\ m \in 0..N /\ k \in 0..19
Next == UNCHANGED <<n, m, k>>
Spec == Init /\ [][Next]_<<n, m, k>>

Vectors == LET u == Vc(n, 1)  v == Vc(n, 4)  s == E(m, 2)
           IN SameV(VAdd(u, v), DVAdd(u, v)) /\ SameV(VSub(u, v), DVSub(u, v)) /\ SameV(VScale(s, u), DVScale(s, u))
Matrices == LET a == Mx(n, m, 0)  b == Mx(n, m, 3)  c == Mx(m, n, 1)  s == E(2, 2)
            IN SameM(MT(a), DMT(a)) /\ SameM(MAdd(a, b), DMAdd(a, b)) /\ SameM(MScale(s, a), DMScale(s, a))
               /\ SameV(MVec(a, Vc(m, 6)), DMVec(a, Vc(m, 6)))
               /\ (m > 0 => SameM(MMul(a, c), DMMul(a, c)))
Closeness == LET u == Vc(n, 1)  v == Vc(n, 1 + 13 * (m % 2))
             IN \A t \in {RLit("0"), RLit("1e-9"), RLit("1e300")} : VClose(u, v, t) = VCloseD(u, v, t)
\* H is symmetric; the pivots may come out zero, the numbers infinite
Factorization == LET a == Mx(n, n, 2)  H == MAdd(MMul(a, MT(a)), MScale(Two, MIdent(n)))
                     f == Ldl(H)  g == DLdl(H)  b == Vc(n, 3)
                 IN n > 0 => /\ SameV(f.D, g.D) /\ SameM(f.L, g.L)
                             /\ SameV(LdlSolve(f, b), DLdlSolve(g, b))
\* and where the numbers are ordinary the factorization is one
Solves == LET H == MAdd(MMul([i \in 1..n |-> [j \in 1..n |-> ROfInt((i * j + k + i) % 5)]],
                             MT([i \in 1..n |-> [j \in 1..n |-> ROfInt((i * j + k + i) % 5)]])), MIdent(n))
              b == [i \in 1..n |-> ROfInt(i + k)]
          IN n > 0 => VClose(MVec(H, LdlSolve(Ldl(H), b)), b, RLit("1e-9"))
=============================================================================
