------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real arithmetic for the numeric clauses of the specification.  A real   *)
(* is a string holding the decimal form of an IEEE double ("0.25", "nan",  *)
(* "inf"), or a TLA+ integer.  TLC evaluates these operators through the   *)
(* override class java/Real64.java; the definitions below only fix arities *)
(* (they are never expanded).                                              *)
(***************************************************************************)
LOCAL Undefined == CHOOSE x : x \notin {}
RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined
RDiv(a, b) == Undefined
RPow(a, b) == Undefined
RNeg(a) == Undefined
RAbs(a) == Undefined
RSqrt(a) == Undefined
RLn(a) == Undefined
RExp(a) == Undefined
RCos(a) == Undefined
RSin(a) == Undefined
RAtan2(a, b) == Undefined
RMax(a, b) == Undefined
RMin(a, b) == Undefined
RSign(a) == Undefined
RPi == Undefined
RNum(a) == Undefined                \* the real denoted by an integer or string
RLt(a, b) == Undefined
RLe(a, b) == Undefined
RFinite(a) == Undefined
RIsNaN(a) == Undefined
RClose(a, b, rtol, atol) == Undefined     \* |a-b| <= atol + rtol*|b|
RCloseSeq(a, b, rtol, atol) == Undefined  \* same length and element-wise RClose
RSum(s) == Undefined
RMean(s) == Undefined
RDot(s, t) == Undefined
RMaxSeq(s) == Undefined
RMinSeq(s) == Undefined
RCeil(a) == Undefined               \* integers
RFloor(a) == Undefined
RTrapz(xs, ys) == Undefined         \* trapezoidal rule
RHypVK(z) == Undefined              \* 2F1(1/3, 17/6; 4/3; -z)
RShape2D(L, z) == Undefined         \* Int_0^inf k^3 (L^-2+k^2)^(-7/3) / (1+k^2 z^2) dk
=============================================================================
