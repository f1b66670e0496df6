------------------------------ MODULE LifetimeMC -----------------------------
(* The specified lifetimes themselves, on a lattice of wavevectors.          *)
EXTENDS Lifetime, TLC
CONSTANTS Ks, Ls
VARIABLES k, L, et
Ets == {"CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET"}
Zero == <<<<"0", "0", "0">>, <<"0", "0", "0">>>>
M(e, ll) == [et |-> e, L |-> ll, G |-> "2.0", ws |-> << <<<<"0.3", "-0.1", "0.2">>, <<"0", "0.5", "0.1">>>>, <<<<"0.1", "0">>, <<"0", "-0.2">>, <<"0.3", "0.3">>>> >>, acts |-> <<"ReLU">>, nu |-> RDiv("-1", "3"),
           slope |-> "-0.8", icpt |-> "-0.4"]
Init == k \in {x \in Ks \X Ks \X Ks : ~IsZero(Norm2(x))} /\ L \in Ls /\ et \in Ets
Next == UNCHANGED <<k, L, et>>
Spec == Init /\ [][Next]_<<k, L, et>>
Positive == LET b == Beta(M(et, L), k) IN RLt(0, b) /\ RFinite(b)
SignFree == \A s \in {<<1, 1, -1>>, <<-1, 1, 1>>, <<1, -1, 1>>, <<-1, -1, -1>>} : RClose(Beta(M(et, L), [i \in 1..3 |-> RMul(s[i], k[i])]), Beta(M(et, L), k), "1e-12", "0")
\* only the product kL matters
Similar == RClose(Beta(M(et, L), k), Beta(M(et, "1"), [i \in 1..3 |-> RMul(L, k[i])]), "1e-9", "0")
\* vanishing weights leave a = |kL|
NoNet == LET z == [M(et, L) EXCEPT !.ws = <<Zero, <<<<"0", "0">>, <<"0", "0">>, <<"0", "0">>>>>>] IN RClose(NetA(z, [i \in 1..3 |-> RMul(L, k[i])]), NormL(z, k), "1e-12", "0")
\* the Mann lifetime lies above the two-thirds law (and meets it at large wavenumbers)
AboveInertial == LET x == NormL(M(et, L), k) IN RLe(RPow(x, RDiv("-2", "3")), RMul(MannTau(x), "1.0000001"))
ASSUME RLt(RegSlope, RDiv("-2", "3")) /\ RLt("-1", RegSlope)
==============================================================================
