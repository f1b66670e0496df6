------------------------------- MODULE LossMC --------------------------------
(* The loss over all small tables of values, and the memory of the values    *)
(* seen.                                                                     *)
EXTENDS Loss
CONSTANTS Vals, Depth, Seen
VARIABLES y, hist, avg
MK == <<"0.1", "0.5", "4.0", "7.0">>
W1 == [a1 |-> "0.7", a2 |-> "1.3", b |-> "0.2", g |-> "2.0"]
W0 == [a1 |-> "0", a2 |-> "0", b |-> "0", g |-> "0"]
Init == /\ y \in [1..4 -> Vals] /\ hist = <<>> /\ avg = "0"
Next == /\ Len(hist) < Depth /\ \E v \in Seen : hist' = Append(hist, v) /\ avg' = EmaStep(avg, hist = <<>>, v)
        /\ UNCHANGED y
Spec == Init /\ [][Next]_<<y, hist, avg>>

T(yy, d, w) == Terms(<<yy>>, <<d>>, <<"1.0", "-2.0">>, <<>>, MK, "3.0", w)
NonNegative == LET t == T(y, <<"1", "2", "1", "3">>, W1) IN
               /\ \A n \in 1..5 : RLe(0, t[Names[n]])
               /\ \A n \in 1..5 : RLe(t[Names[n]], Total(t))
PerfectFit == RLe(T(y, y, W0).mse, "0") /\ RLe(Total(T(y, y, W0)), "0")
Zeros == LET s == Slopes(<<y>>, MK)[1]
             c == Curvatures(<<y>>, MK)[1]
             t == T(y, y, W1) IN
         /\ (\A j \in 1..3 : RLe(s[j], "0")) <=> RLe(t.pen1, "0")
         /\ (\A j \in 1..2 : RLe(c[j], "0")) <=> RLe(t.pen2, "0")
\* scaling of the spectra leaves slopes and curvatures alone, and sign does not matter
ScaleFree == LET yy == [j \in 1..4 |-> RMul("-3.0", y[j])] IN
             RClose(T(yy, y, W1).pen1, T(y, y, W1).pen1, "1e-9", "1e-12") /\ RClose(T(yy, y, W1).pen2, T(y, y, W1).pen2, "1e-9", "1e-12")
AverageBetween == hist # <<>> => /\ RClose(avg, Ema(hist), "1e-12", "1e-15")
                                /\ RLe(avg, RAdd(RMaxSeq(hist), "1e-12")) /\ RLe(RSub(RMinSeq(hist), "1e-12"), avg)
AdviceTotal == \A e \in {0, 2, 9} : Advice(e, 2, Len(hist), IF Len(hist) >= 2 THEN Improvement(Last(hist, 2)) ELSE "0", IF Len(hist) >= 2 THEN Stability(Last(hist, 2)) ELSE "1", "1")
                 \in {"insufficient_data", "no_diagnostics", "stagnation", "instability", "component_dominance", "healthy_training"}
==============================================================================
