-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Binary64 reals for TLC.  A real is the pair <<hi, lo>> of the signed    *)
(* 32-bit halves of its IEEE-754 bit pattern, which is exactly what the    *)
(* harness writes into traces (TLC integers are 32 bit, so nothing wraps). *)
(* The operators below are implemented in Real.java, which TLC loads as    *)
(* the module's operator overrides; each does ONE IEEE operation of        *)
(* java.lang.Math, so the meaning of every formula stays in the TLA+ text. *)
(***************************************************************************)
LOCAL Undef == CHOOSE x : FALSE

RLit(s)      == Undef    \* "1e-9"  -> the nearest real
ROfInt(i)    == Undef
RAdd(a, b)   == Undef
RSub(a, b)   == Undef
RMul(a, b)   == Undef
RDiv(a, b)   == Undef
RNeg(a)      == Undef
RAbs(a)      == Undef
RSqrt(a)     == Undef
RSin(a)      == Undef
RCos(a)      == Undef
RAcos(a)     == Undef
RTan(a)      == Undef
RAtan2(a, b) == Undef    \* atan2(y, x)
RMin(a, b)   == Undef
RMax(a, b)   == Undef
RLt(a, b)    == Undef    \* IEEE <, FALSE if one is a NaN
RLe(a, b)    == Undef
RFinite(a)   == Undef
RNaN(a)      == Undef    \* is a NaN
RStr(a)      == Undef    \* decimal text (messages only)
RSum(s)      == Undef    \* sum of a sequence of reals, left to right
RDot(u, v)   == Undef    \* sum of the products of two equally long sequences
RMaxAbs(s)   == Undef    \* largest absolute value in a sequence (0 if empty; NaN counts as infinity)
RAllFinite(s) == Undef   \* no NaN or infinity in a sequence

Force(x) == x            \* evaluates a lazily represented function/tuple once (override); semantically the identity
=============================================================================
