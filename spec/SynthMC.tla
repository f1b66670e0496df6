------------------------------ MODULE SynthMC --------------------------------
(* Sanity of the formulas themselves: isotropy ties the two von Karman        *)
(* formulas together, both families have the inertial-range ratio and slope,  *)
(* and the Kaimal stress obeys Cauchy-Schwarz.                                *)
EXTENDS Synth
CONSTANTS Ks, Ls, Us
VARIABLES k, L, u
Init == k \in Ks /\ L \in Ls /\ u \in Us
Next == UNCHANGED <<k, L, u>>
Spec == Init /\ [][Next]_<<k, L, u>>

\* F22 = (F11 - k dF11/dk)/2 for an isotropic incompressible field
F11(x) == RDiv(VK11(x, L, u), x)
H == RMul(k, "1e-4")
Deriv == RDiv(RSub(F11(RAdd(k, H)), F11(RSub(k, H))), RMul("2", H))
Isotropic == RClose(RDiv(VK22(k, L, u), k), RMul("0.5", RSub(F11(k), RMul(k, Deriv))), "1e-5", "0")
\* four-thirds law far in the inertial range
FourThirds == RLt("50", RMul(k, L)) => RClose(RDiv(VK22(k, L, u), VK11(k, L, u)), RDiv("4", "3"), "2e-3", "0")
Signs == LET f == Kaimal(k, L, u) IN \A n \in {1, 5, 9} : RLt("0", f[n]) /\ RLt(f[3], "0")
CauchySchwarz == LET f == Kaimal(k, L, u) IN RLe(RMul(f[3], f[3]), RMul(f[1], f[9]))
\* only the product k1*zref matters for Kaimal, amplitude is quadratic in ustar
Similar == LET f == Kaimal(k, L, u)  g == Kaimal(RMul(k, "2"), RMul(L, "0.5"), RMul(u, "3")) IN \A n \in 1..9 : RClose(g[n], RMul("9", f[n]), "1e-12", "0")
==============================================================================
