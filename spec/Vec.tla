-------------------------------- MODULE Vec ---------------------------------
(***************************************************************************)
(* Vectors (sequences of reals) and matrices (sequences of rows).          *)
(* Vec.java overrides the hot operators with the same loops in Java;       *)
(* MCVec checks that the overrides and these definitions agree.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real

LOCAL Abs(i) == IF i < 0 THEN -i ELSE i
Zero == ROfInt(0)
One  == ROfInt(1)
Two  == ROfInt(2)
Half == RLit("0.5")
PiR  == RLit("3.141592653589793")

\* ------------------------------------------------------------ definitions
DVAdd(u, v)   == Force([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
DVSub(u, v)   == Force([i \in 1..Len(u) |-> RSub(u[i], v[i])])
DVScale(s, u) == Force([i \in 1..Len(u) |-> RMul(s, u[i])])
DMT(m)        == Force(IF m = <<>> THEN <<>> ELSE [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]])
DMVec(m, v)   == Force([i \in 1..Len(m) |-> RDot(m[i], v)])
DMMul(a, b)   == LET bt == DMT(b) IN Force([i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> RDot(a[i], bt[j])]])
DMScale(s, m) == Force([i \in 1..Len(m) |-> DVScale(s, m[i])])
DMAdd(a, b)   == Force([i \in 1..Len(a) |-> DVAdd(a[i], b[i])])

\* ------------------------------------------------- the names used everywhere
VAdd(u, v)   == DVAdd(u, v)
VSub(u, v)   == DVSub(u, v)
VScale(s, u) == DVScale(s, u)
MT(m)        == DMT(m)
MVec(m, v)   == DMVec(m, v)
MMul(a, b)   == DMMul(a, b)
MScale(s, m) == DMScale(s, m)
MAdd(a, b)   == DMAdd(a, b)

VDot(u, v)   == RDot(u, v)
VSq(u)       == RDot(u, u)
VNorm(u)     == RSqrt(VSq(u))
VZero(n)     == [i \in 1..n |-> Zero]
VUnit(n, k)  == [i \in 1..n |-> IF i = k THEN One ELSE Zero]
VNormalize(u) == LET n == VNorm(u) IN Force([i \in 1..Len(u) |-> RDiv(u[i], n)])
Cross(a, b)  == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Seg(u, i, n) == SubSeq(u, i, i + n - 1)          \* n entries from index i (1-based)
MIdent(n)    == [i \in 1..n |-> VUnit(n, i)]
Mat(flat, r, c) == Force([i \in 1..r |-> [j \in 1..c |-> flat[(i - 1) * c + j]]])   \* row-major
RECURSIVE Flat(_)
Flat(m)      == IF m = <<>> THEN <<>> ELSE Head(m) \o Flat(Tail(m))
Det3(m)      == RDot(m[1], Cross(m[2], m[3]))

\* ------------------------------------------------------------- comparisons
\* a and b agree up to tol; NaN agrees with NaN, an infinity with itself
Close(a, b, tol) ==
    \/ a = b
    \/ RNaN(a) /\ RNaN(b)
    \/ RLe(RAbs(RSub(a, b)), tol)
VCloseD(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], tol)
VClose(u, v, tol) == VCloseD(u, v, tol)
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], tol)

\* --------------------------------------------------- symmetric linear algebra
\* Cholesky-type factorization H = L D L^T without pivoting: [L |-> rows of L below the diagonal, D |-> pivots].
RECURSIVE LdlRows(_, _, _, _)
LdlRows(H, i, L, D) ==
    IF i > Len(H) THEN [L |-> L, D |-> D]
    ELSE LET RECURSIVE Row(_, _)
             \* row(j): entries 1..j-1 of row i of L
             Row(j, acc) ==
                IF j > i - 1 THEN acc
                ELSE LET s == RSum([k \in 1..(j - 1) |-> RMul(RMul(acc[k], L[j][k]), D[k])])
                     IN Row(j + 1, Append(acc, RDiv(RSub(H[i][j], s), D[j])))
             row == Row(1, <<>>)
             d   == RSub(H[i][i], RSum([k \in 1..(i - 1) |-> RMul(RMul(row[k], row[k]), D[k])]))
         IN LdlRows(H, i + 1, Append(L, row), Append(D, d))
DLdl(H) == LdlRows(H, 1, <<>>, <<>>)
Ldl(H) == DLdl(H)

\* solves L D L^T x = b
RECURSIVE Fwd(_, _, _)
Fwd(L, b, y) ==
    IF Len(y) = Len(b) THEN y
    ELSE LET i == Len(y) + 1
         IN Fwd(L, b, Append(y, RSub(b[i], RSum([k \in 1..(i - 1) |-> RMul(L[i][k], y[k])]))))
RECURSIVE Bwd(_, _, _, _)
Bwd(L, z, i, x) ==       \* x holds entries i+1..n
    IF i = 0 THEN x
    ELSE LET n == Len(z)
             xi == RSub(z[i], RSum([k \in 1..(n - i) |-> RMul(L[i + k][i], x[k])]))
         IN Bwd(L, z, i - 1, <<xi>> \o x)
DLdlSolve(f, b) == LET y == Fwd(f.L, b, <<>>)
                   IN Bwd(f.L, [i \in 1..Len(y) |-> RDiv(y[i], f.D[i])], Len(y), <<>>)
LdlSolve(f, b) == DLdlSolve(f, b)
RECURSIVE MinOf(_, _)
MinOf(s, i) == IF i = Len(s) THEN s[i] ELSE RMin(s[i], MinOf(s, i + 1))
RECURSIVE MaxOf(_, _)
MaxOf(s, i) == IF i = Len(s) THEN s[i] ELSE RMax(s[i], MaxOf(s, i + 1))
VMin(s) == MinOf(s, 1)
VMax(s) == MaxOf(s, 1)
=============================================================================
