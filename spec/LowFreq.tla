------------------------------ MODULE LowFreq -------------------------------
(***************************************************************************)
(* The two-dimensional low-frequency generator.  Grid: sizes of the        *)
(* internal grid from the request (C09).  Spectrum: the documented energy  *)
(* spectrum and its integrals (C10, C11).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64, Window

\* request: [L2d, f1, f2, e1, e2, sigma2, psi, zi]
Ext1(c) == RMul(c.f1, c.L2d)
Ext2(c) == RMul(c.f2, c.L2d)
Pts1(c) == Pow2(c.e1)
Pts2(c) == Pow2(c.e2)
Fine(c) == RMin(RDiv(Ext1(c), Pts1(c)), RDiv(Ext2(c), Pts2(c)))
Five(c) == RMul(5, c.L2d)
Target1(c) == RMax(Ext1(c), Five(c))
Target2(c) == RMax(Ext2(c), Five(c))
\* sizes allowed for an extent: even, containing the target, by less than two cells
SizeOK(n, target, d) ==
  /\ n % 2 = 0 /\ n >= 2
  /\ RLe(RMul(target, "0.999999999"), RMul(d, n))
  /\ n = 2 \/ RLe(RMul(d, n), RAdd(target, RMul(d, "2.0000001")))
Small(c) == RLt(Ext1(c), Five(c)) \/ RLt(Ext2(c), Five(c))

(***** spectrum ***********************************************************)
LfSq(x) == RMul(x, x)
Cst(c) == RDiv(c.sigma2, RMul(2, RShape2D(c.L2d, c.zi)))
Kappa2(c, k1, k2) == RMul(2, RAdd(LfSq(RMul(k1, RCos(c.psi))), LfSq(RMul(k2, RSin(c.psi)))))
Energy(c, cst, kap2) ==
  RDiv(RMul(cst, RPow(kap2, "1.5")),
       RMul(RPow(RAdd(RDiv(1, LfSq(c.L2d)), kap2), RDiv("7", "3")), RAdd(1, RMul(kap2, LfSq(c.zi)))))
\* the filter sqrt(E/(pi k^3)) 2 pi / d
Filter(c, cst, k1, k2, d) ==
  LET k == RSqrt(RAdd(LfSq(k1), LfSq(k2)))
  IN RMul(RSqrt(RDiv(Energy(c, cst, Kappa2(c, k1, k2)), RMul(RPi, RPow(k, 3)))), RDiv(RMul(2, RPi), d))

\* E/(pi k) (kd/k)^2
Integrand(c, cst, k1, k2, kd) ==
  LET kk == RAdd(LfSq(k1), LfSq(k2))
  IN RDiv(RMul(Energy(c, cst, Kappa2(c, k1, k2)), LfSq(kd)), RMul(RPi, RPow(kk, "1.5")))
\* integral over k2 in [-lim, lim], substituting k2 = exp(t)
Spec1D(c, cst, k1, lim, which) ==
  LET a == RLn(RMul("1e-7", RMin(RAbs(k1), RDiv(1, c.L2d)))) b == RLn(lim) n == 400
      t == [m \in 1..(n+1) |-> RAdd(a, RMul(RSub(b, a), RDiv(m - 1, n)))]
      k2 == [m \in 1..(n+1) |-> RExp(t[m])]
      f == [m \in 1..(n+1) |-> RMul(k2[m], Integrand(c, cst, k1, k2[m], IF which = 1 THEN k2[m] ELSE k1))]
      fine == RTrapz(t, f)
      coarse == RTrapz([m \in 1..(n \div 2 + 1) |-> t[2 * m - 1]], [m \in 1..(n \div 2 + 1) |-> f[2 * m - 1]])
  IN RMul(2, RDiv(RSub(RMul(4, fine), coarse), 3))       \* Simpson's rule

\* power of wavenumber number m (0-based) of table u, summed over the lateral wavenumbers
Power(u, m) ==
  LET n1 == Len(u) n2 == Len(u[1])
      cs == [x \in 1..n1 |-> RCos(RMul(RMul(2, RPi), RDiv(m * (x - 1), n1)))]
      sn == [x \in 1..n1 |-> RSin(RMul(RMul(2, RPi), RDiv(m * (x - 1), n1)))]
      col(y) == [x \in 1..n1 |-> u[x][y]]
  IN RMul(n2, RSum([y \in 1..n2 |-> RAdd(LfSq(RDot(col(y), cs)), LfSq(RDot(col(y), sn)))]))
=============================================================================
