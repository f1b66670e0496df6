------------------------------- MODULE Spectra -------------------------------
(* One-point spectra and coherence: double integrals of the distorted tensor *)
(* over symmetric logarithmic grids.  m: model as in Lifetime, with S (the   *)
(* amplitude) and, for the learnable spectrum, p and q.                      *)
EXTENDS Lifetime, TLC

LogGrid(lo, hi, n) ==
  LET g == [i \in 1..n |-> RPow("10", IF n = 1 THEN lo ELSE RAdd(lo, RMul(RSub(hi, lo), RDiv(i - 1, n - 1))))] IN
  TLCEval([i \in 1..(2 * n + 1) |-> IF i <= n THEN RNeg(g[n + 1 - i]) ELSE IF i = n + 1 THEN "0" ELSE g[i - n - 1]])
Scaled(g, f) == TLCEval([i \in 1..Len(g) |-> RMul(g[i], f)])

\* energy spectra of x = kL: with exponents p and q, von Karman, and the form used for the spectra
Learned(x, p, q) == RDiv(RPow(x, p), RPow(RAdd("1", Sq(x)), q))
VonKarman(x) == Learned(x, "4", RDiv("17", "6"))
VonKarmanLike(x) == RMul(RPow(x, RDiv("-5", "3")), RPow(RDiv(x, RSqrt(RAdd("1", Sq(x)))), RDiv("17", "3")))
\* E(k0)/(4 pi k0^4)
OpsAmp(m, k0) ==
  LET x == RMul(m.L, RSqrt(k0))
      en == IF m.learn THEN Learned(x, m.p, m.q) ELSE VonKarmanLike(x)
  IN RDiv(RMul(RMul(m.S, RPow(m.L, RDiv("5", "3"))), en), RMul(RMul("4", RPi), Sq(k0)))

OpsTensor(m, k) ==
  LET x == Shear(k, Beta(m, k))
      a == OpsAmp(m, x.k0)
      s == ShearEntries(k, x)
  IN TLCEval([n \in 1..6 |-> RMul(a, s[n])])

\* smallest values; the off-diagonal 23 and 12, odd in k2, enter with their positive part
Floor(n, x, eps) == IF n = 4 THEN (IF RLt(RAbs(x), eps) THEN RMul(eps, RSign(x)) ELSE x)
                    ELSE RMax(x, eps)

Table(m, k1, g2, g3, eps) ==
  TLCEval([i \in 1..Len(g2) |-> TLCEval([j \in 1..Len(g3) |-> LET t == OpsTensor(m, <<k1, g2[i], g3[j]>>) IN TLCEval([n \in 1..6 |-> Floor(n, t[n], eps)])])])
Double(g2, g3, F(_, _)) == RTrapz(g2, [i \in 1..Len(g2) |-> RTrapz(g3, [j \in 1..Len(g3) |-> F(i, j)])])

OnePoint(m, k1, g) ==
  LET t == Table(m, k1, g, g, "1e-12") IN
  TLCEval([n \in 1..6 |-> RMul(k1, Double(g, g, LAMBDA i, j : t[i][j][n]))])

\* |S(r)|^2 / |S(0)|^2 for the three diagonal components
Coherence(m, k1, r, g) ==
  LET t == Table(m, k1, g, g, "1e-32")
      inner == TLCEval([n \in 1..3 |-> TLCEval([i \in 1..Len(g) |-> RTrapz(g, [j \in 1..Len(g) |-> t[i][j][n]])])])
      re(n) == RTrapz(g, [i \in 1..Len(g) |-> RMul(RCos(RMul(g[i], r)), inner[n][i])])
      im(n) == RTrapz(g, [i \in 1..Len(g) |-> RMul(RSin(RMul(g[i], r)), inner[n][i])])
      s0(n) == RTrapz(g, inner[n])
  IN [n \in 1..3 |-> RDiv(RAdd(Sq(re(n)), Sq(im(n))), Sq(s0(n)))]
==============================================================================
