------------------------------ MODULE KernelMC ------------------------------
(* The specified tensors themselves: on every point of a lattice and every  *)
(* listed lifetime and length scale they are solenoidal, non-negative, even *)
(* in k, and isotropic for lifetime zero.                                   *)
EXTENDS Kernel
CONSTANT Ks, Betas, Ls
VARIABLES k, b, L
Init == k \in Ks \X Ks \X Ks /\ b \in Betas /\ L \in Ls
Next == UNCHANGED <<k, b, L>>
Spec == Init /\ [][Next]_<<k, b, L>>
T == Tensor("1.7", L, k, b)
Tr == RAdd(RAdd(T[1], T[2]), T[3])
M(i, j) == LET a == IF i <= j THEN <<i, j>> ELSE <<j, i>> IN T[CHOOSE m \in 1..6 : Pairs[m] = a]
NZ == ~IsZero(Norm2(k))
Solenoidal == NZ => \A i \in 1..3 : RLe(RAbs(RDot(<<M(i, 1), M(i, 2), M(i, 3)>>, k)), RMul(RMul(Tr, RSqrt(Norm2(k))), "1e-9"))
Det2(i, j) == RSub(RMul(M(i, i), M(j, j)), Sq(M(i, j)))
NonNegative == NZ => /\ \A i \in 1..3 : RLe(RNeg(RMul(Tr, "1e-12")), M(i, i))
                     /\ \A i, j \in 1..3 : RLe(RNeg(RMul(Sq(Tr), "1e-9")), Det2(i, j))
                     /\ RLt(0, Tr)
Neg == [i \in 1..3 |-> RNeg(k[i])]
Even == NZ => RCloseSeq(Tensor("1.7", L, Neg, b), T, "1e-9", RMul(Tr, "1e-9"))
IsoLimit == NZ /\ IsZero(b) => \A m \in 1..6 : RClose(T[m], Iso("1.7", L, k, Pairs[m][1], Pairs[m][2]), "0", RMul(Tr, "1e-9"))
\* the IEC lifetime is positive, decreasing in k, and scales as k^(-2/3) at large and k^(-1) at small k
Lifetime == NZ => LET m == MannBeta("1", L, k) IN RLt(0, m) /\ RLt(MannBeta("1", L, [i \in 1..3 |-> RMul(2, k[i])]), m)
=============================================================================
