----------------------------- MODULE ScheduleMC ------------------------------
(* A schedule running through its epochs while losses are remembered.         *)
EXTENDS Schedule
CONSTANTS MaxE, Vals
VARIABLES E, t, ops, coh
vars == <<E, t, ops, coh>>
Init == E \in 1..MaxE /\ t = 0 /\ ops = <<>> /\ coh = <<>>
Next == /\ t < E /\ t' = t + 1 /\ UNCHANGED E
        /\ \E a \in Vals, b \in Vals, k \in {1, 4} : ops' = ops \o [n \in 1..k |-> a] /\ coh' = coh \o [n \in 1..k |-> b]
Spec == Init /\ [][Next]_vars
Between == LET f == Phases(E, t) IN RLe("0.1", f) /\ RLe(f, "2")
StartsDouble == t = 0 => RClose(Phases(E, t), "2", "1e-12", "0")
NeverRises == t < E => RLe(Phases(E, t + 1), RAdd(Phases(E, t), "1e-12"))
EndsLow == t = E => RClose(Phases(E, t), "0.1", "1e-12", "0")
SmallStepsInTheMiddle == Second(E, t) /\ Second(E, t + 1) => RClose(RSub(Phases(E, t), Phases(E, t + 1)), RDiv("2.5", E), "1e-9", "0")
WaitsForLosses == Len(ops) < 10 => Adaptive(ops, coh, Len(ops), t) = "1"
OutOfBalance == Len(ops) >= 10 /\ RLt("10", Balance(ops, coh)) => Adaptive(ops, coh, Len(ops), t) = "0.5"
==============================================================================
