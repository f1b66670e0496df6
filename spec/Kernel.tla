------------------------------- MODULE Kernel -------------------------------
(* Spectral tensors: isotropic von Karman, and its rapid distortion over an *)
(* eddy lifetime (Mann 1994).  A wavevector is a triple of reals.           *)
EXTENDS Integers, Sequences, Real64

Sq(x) == RMul(x, x)
Norm2(k) == RAdd(RAdd(Sq(k[1]), Sq(k[2])), Sq(k[3]))
IsZero(x) == RLe(x, "0") /\ RLe("0", x)

\* the eddy lifetime of the Mann model
MannBeta(G, L, k) ==
  LET q == RMul(Norm2(k), Sq(L))
  IN IF IsZero(q) THEN "0"
     ELSE RDiv(RMul(G, RPow(q, RDiv("-1", "3"))), RSqrt(RHypVK(RDiv(1, q))))

\* E(k)/(4 pi k^4) for the von Karman energy spectrum with amplitude E0
Amp(E0, L, kk) == RDiv(RDiv(RMul(E0, RPow(L, RDiv("17", "3"))), RMul(4, RPi)),
                       RPow(RAdd(1, RMul(Sq(L), kk)), RDiv("17", "6")))

Delta(i, j) == IF i = j THEN 1 ELSE 0
Iso(E0, L, k, i, j) ==
  RMul(Amp(E0, L, Norm2(k)), RSub(RMul(Delta(i, j), Norm2(k)), RMul(k[i], k[j])))

\* everything the sheared tensor is made of
Shear(k, beta) ==
  LET k1 == k[1] k2 == k[2]
      k30 == RAdd(k[3], RMul(beta, k1))
      kk == Norm2(k)
      k0 == RAdd(RAdd(Sq(k1), Sq(k2)), Sq(k30))
      s == RAdd(Sq(k1), Sq(k2))
      c1 == RDiv(RMul(RMul(beta, Sq(k1)), RAdd(RSub(k0, RMul(2, Sq(k30))), RMul(RMul(beta, k1), k30))), RMul(kk, s))
      c2 == RMul(RDiv(RMul(k2, k0), RPow(s, "1.5")),
                 RAtan2(RMul(RMul(beta, k1), RSqrt(s)), RSub(k0, RMul(RMul(k30, k1), beta))))
      q == RDiv(k2, k1)
  IN [k30 |-> k30, k0 |-> k0, kk |-> kk, s |-> s,
      z1 |-> RSub(c1, RMul(q, c2)), z2 |-> RAdd(RMul(q, c1), c2)]

(* the six independent entries 11, 22, 33, 13, 23, 12 divided by E/(4 pi k0^4) *)
ShearEntries(k, x) ==
  LET r == RDiv(x.k0, x.kk)
  IN << RAdd(RSub(RSub(x.k0, Sq(k[1])), RMul(2, RMul(RMul(k[1], x.k30), x.z1))), RMul(x.s, Sq(x.z1))),
        RAdd(RSub(RSub(x.k0, Sq(k[2])), RMul(2, RMul(RMul(k[2], x.k30), x.z2))), RMul(x.s, Sq(x.z2))),
        RMul(Sq(r), x.s),
        RMul(r, RSub(RMul(x.s, x.z1), RMul(k[1], x.k30))),
        RMul(r, RSub(RMul(x.s, x.z2), RMul(k[2], x.k30))),
        RAdd(RSub(RSub(RNeg(RMul(k[1], k[2])), RMul(RMul(k[1], x.k30), x.z2)), RMul(RMul(k[2], x.k30), x.z1)),
             RMul(RMul(x.s, x.z1), x.z2)) >>

Tensor(E0, L, k, beta) ==
  IF IsZero(k[1])        \* no distortion on this plane
  THEN << Iso(E0, L, k, 1, 1), Iso(E0, L, k, 2, 2), Iso(E0, L, k, 3, 3),
          Iso(E0, L, k, 1, 3), Iso(E0, L, k, 2, 3), Iso(E0, L, k, 1, 2) >>
  ELSE LET x == Shear(k, beta)
           a == Amp(E0, L, x.k0)
           s == ShearEntries(k, x)
       IN [m \in 1..6 |-> RMul(a, s[m])]
Pairs == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<2, 3>>, <<1, 2>> >>
=============================================================================
