------------------------------ MODULE Lifetime -------------------------------
(* Eddy lifetimes.  k is a wavevector, m the model: [et, L, G] and, for the  *)
(* network, [ws, acts, nu].                                                  *)
EXTENDS Kernel

NormL(m, k) == RMul(m.L, RSqrt(Norm2(k)))
MannTau(x) == RDiv(RPow(x, RDiv("-2", "3")), RSqrt(RHypVK(RPow(x, "-2"))))

\* least squares in log-log space over 50 logarithmically spaced points from 1e-3 to 1e3
RegX == [n \in 1..50 |-> RMul(RLn("10"), RAdd("-3", RMul("6", RDiv(n - 1, "49"))))]
RegY == [n \in 1..50 |-> RLn(MannTau(RExp(RegX[n])))]
RegMX == RMean(RegX)
RegMY == RMean(RegY)
RegSlope == RDiv(RSum([n \in 1..50 |-> RMul(RSub(RegX[n], RegMX), RSub(RegY[n], RegMY))]), RSum([n \in 1..50 |-> Sq(RSub(RegX[n], RegMX))]))
RegIcpt == RSub(RegMY, RMul(RegSlope, RegMX))

\* the network: layers without bias, an activation after all but the last
Tanh(x) == LET p == RExp(RMul("2", x)) IN RSub("1", RDiv("2", RAdd(p, "1")))
Act(a, x) == CASE a = "ReLU" -> RMax(x, "0")
               [] a = "Tanh" -> Tanh(x)
               [] a = "Sigmoid" -> RDiv("1", RAdd("1", RExp(RNeg(x))))
               [] a = "LeakyReLU" -> IF RLt(x, "0") THEN RMul("0.01", x) ELSE x
               [] OTHER -> x
MatVec(w, v) == [i \in 1..Len(w) |-> RDot(w[i], v)]
RECURSIVE Layers(_, _, _)
Layers(ws, acts, v) ==
  IF Len(ws) = 1 THEN MatVec(ws[1], v)
  ELSE LET u == MatVec(ws[1], v) IN Layers(Tail(ws), Tail(acts), [i \in 1..Len(u) |-> Act(acts[1], u[i])])
NetA(m, x) == LET v == [i \in 1..3 |-> RAbs(x[i])]
                  n == Layers(m.ws, m.acts, v) IN
              RSqrt(RSum([i \in 1..3 |-> Sq(RAdd(v[i], n[i]))]))
Rat(a, nu) == RDiv(RPow(a, RSub(nu, RDiv("2", "3"))), RPow(RAdd("1", Sq(a)), RDiv(nu, "2")))
NetTau(m, x) == Rat(NetA(m, x), m.nu)

TauOf(m, k) ==
  LET x == NormL(m, k) IN
  CASE m.et = "CONST" -> "1"
    [] m.et = "TWOTHIRD" -> RPow(x, RDiv("-2", "3"))
    [] m.et = "MANN" -> MannTau(x)
    [] m.et = "MANN_APPROX" -> RExp(RAdd(RMul(m.slope, RLn(x)), m.icpt))
    [] m.et = "TAUNET" -> NetTau(m, [i \in 1..3 |-> RMul(m.L, k[i])])
Beta(m, k) == RMul(m.G, TauOf(m, k))
==============================================================================
