---------------------------- MODULE KernelTrace -----------------------------
(* Recorded square-root kernels against Kernel, wavevector by wavevector    *)
(* (C06, C07).  Event "pt": k, g (3x3 imaginary parts), re (largest real    *)
(* part), gm (the kernel at -k), and the parameters.                        *)
EXTENDS Kernel, TraceKit

MySt0 == 0
MyStep(s, e) == s

Col(g, j) == <<g[1][j], g[2][j], g[3][j]>>
Scale(g) == RMaxSeq([n \in 1..9 |-> RAbs(g[((n - 1) \div 3) + 1][((n - 1) % 3) + 1])])
Beta(e) == CASE e.model = "VK" -> "0" [] e.model = "Mann" -> MannBeta(e.G, e.L, e.k) [] OTHER -> e.beta

\* The closed form cancels a factor beta (k0 against k), so double precision
\* leaves a relative error of about beta ulps; at kL = 5e-9 beta is 2e8.
Cancel(e) == RMul(Beta(e), "1e-14")
Eps(e) == IF e.model = "DRD" THEN "2e-5" ELSE RAdd("1e-8", Cancel(e))

StructFail(e) ==
  LET sc == Scale(e.g) IN
  If(e.fin /\ RFinite(sc), "Finite")
  \cup If(RLe(e.re, "0"), "PurelyImaginary")
  \cup (IF ~RFinite(sc) THEN {} ELSE
        If(\A j \in 1..3 : RLe(RAbs(RDot(e.k, Col(e.g, j))), RMul(RMul(sc, RSqrt(Norm2(e.k))), Eps(e))), "Solenoidal")
        \cup If(e.hasneg => \A i, j \in 1..3 : RClose(e.gm[i][j], RNeg(e.g[i][j]), "0", RMul(sc, Eps(e))), "Odd")
        \cup If(IsZero(Norm2(e.k)) => IsZero(sc), "ZeroAtOrigin")
        \cup If(~IsZero(Norm2(e.k)) => RLt(0, sc), "NonZeroElsewhere"))

Amplitude(e) ==
  IF e.via = "class" THEN e.E
  ELSE RMul(RMul(e.E, Sq(e.ustar)), RPow(e.zref, RDiv("-2", "3")))

Outer(g, i, j) == RAdd(RAdd(RMul(g[i][1], g[j][1]), RMul(g[i][2], g[j][2])), RMul(g[i][3], g[j][3]))

PhiFail(e) ==
  LET t == Tensor(Amplitude(e), e.L, e.k, Beta(e))
      tr == RAdd(RAdd(t[1], t[2]), t[3])
      tol == IF e.model = "DRD" THEN "3e-3" ELSE RAdd("1e-6", Cancel(e))
  IN IF IsZero(Norm2(e.k)) THEN {}
     ELSE If(\A m \in 1..6 : RClose(Outer(e.g, Pairs[m][1], Pairs[m][2]), t[m], "0", RMul(tr, tol)), "Tensor")

MyFail(s, e) ==
  CASE e.a = "struct" -> StructFail(e)
    [] e.a = "phi" -> PhiFail(e)
    [] e.a = "build" -> If(e.out = "ok", "Evaluates")
    [] OTHER -> {"UnknownEvent"}
=============================================================================
