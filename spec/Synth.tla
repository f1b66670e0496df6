------------------------------- MODULE Synth ---------------------------------
(* Synthetic one-point spectra (C24).                                         *)
EXTENDS Integers, Sequences, Real64

\* von Karman, frequency weighted: isotropic with length scale L and constant C
VKDen(k, L) == RAdd(RDiv("1", RMul(L, L)), RMul(k, k))
VK11(k, L, C) == RMul(k, RDiv(RMul(RDiv("9", "55"), C), RPow(VKDen(k, L), RDiv("5", "6"))))
VK22(k, L, C) == RMul(k, RDiv(RMul(RMul(RDiv("3", "110"), C), RAdd(RDiv("3", RMul(L, L)), RMul("8", RMul(k, k)))), RPow(VKDen(k, L), RDiv("11", "6"))))
VonKarman(k, L, C) == <<VK11(k, L, C), "0", "0",
                        "0", VK22(k, L, C), "0",
                        "0", "0", VK22(k, L, C)>>

\* Kaimal (IEC), frequency weighted
KN(k, z) == RDiv(RMul(k, z), RMul("2", RPi))
K11(n) == RDiv(RMul("52.5", n), RPow(RAdd("1", RMul("33", n)), RDiv("5", "3")))
K22(n) == RDiv(RMul("8.5", n), RPow(RAdd("1", RMul("9.5", n)), RDiv("5", "3")))
K33(n) == RDiv(RMul("1.05", n), RAdd("1", RMul("5.3", RPow(n, RDiv("5", "3")))))
K13(n) == RNeg(RDiv(RMul("7", n), RPow(RAdd("1", RMul("9.6", n)), "2.4")))
Kaimal(k, z, u) == LET n == KN(k, z)  uu == RMul(u, u) IN
                   <<RMul(uu, K11(n)), "0", RMul(uu, K13(n)),
                     "0", RMul(uu, K22(n)), "0",
                     "0", "0", RMul(uu, K33(n))>>
==============================================================================
