------------------------------ MODULE SpectraMC ------------------------------
(* The specified spectra and coherences themselves on coarse grids.          *)
EXTENDS Spectra
CONSTANTS K1s, Ets, Rs
VARIABLES k1, et, r
G == LogGrid("-1", "1", 2)
M(e) == [et |-> e, L |-> "0.7", G |-> "2.0", S |-> "1.3", learn |-> FALSE, slope |-> "-0.8", icpt |-> "-0.4"]
Init == k1 \in K1s /\ et \in Ets /\ r \in Rs
Next == UNCHANGED <<k1, et, r>>
Spec == Init /\ [][Next]_<<k1, et, r>>
F == OnePoint(M(et), k1, G)
DiagPositive == \A n \in 1..3 : RLt(0, F[n])
Proportional == LET f2 == OnePoint([M(et) EXCEPT !.S = "2.6"], k1, G) IN \A n \in 1..6 : RClose(f2[n], RMul("2", F[n]), "1e-9", "1e-9")
VKisLearnable == LET f2 == OnePoint([M(et) EXCEPT !.learn = TRUE] @@ [p |-> "4", q |-> RDiv("17", "6")], k1, G) IN \A n \in 1..6 : RClose(f2[n], F[n], "1e-9", "1e-12")
C == Coherence(M(et), k1, r, G)
IsCoherence == \A n \in 1..3 : RLe(0, C[n]) /\ RLe(C[n], "1.000000000001")
OneAtZero == IsZero(r) => \A n \in 1..3 : RClose(C[n], "1", "1e-12", "0")
EvenInR == LET d == Coherence(M(et), k1, RNeg(r), G) IN \A n \in 1..3 : RClose(C[n], d[n], "1e-9", "1e-15")
==============================================================================
