------------------------------ MODULE Schedule -------------------------------
(* The learning-rate schedules a problem offers (C30).  Epochs are counted    *)
(* from 0; E epochs in all; a rate is its start value times the factor.       *)
EXTENDS Integers, Sequences, Real64

First(E, t) == RLt(t, RMul("0.3", E))
Second(E, t) == ~First(E, t) /\ RLt(t, RMul("0.7", E))
Phases(E, t) == IF First(E, t) THEN "2" ELSE IF Second(E, t) THEN RSub("2", RDiv(RSub(t, RMul("0.3", E)), RMul("0.4", E))) ELSE "0.1"

LastFive(s) == IF Len(s) <= 5 THEN s ELSE SubSeq(s, Len(s) - 4, Len(s))
\* ops, coh: the losses remembered, n totals among them
Balance(ops, coh) == RDiv(RMean(LastFive(ops)), RAdd(RMean(LastFive(coh)), "1e-8"))
Adaptive(ops, coh, n, t) ==
  IF n < 10 THEN "1"
  ELSE LET q == Balance(ops, coh) IN IF RLt("10", q) \/ RLt(q, "0.1") THEN "0.5" ELSE RPow("0.95", t - 10)
OnEdge(ops, coh, n) == n >= 10 /\ LET q == Balance(ops, coh) IN RClose(q, "10", "1e-9", "0") \/ RClose(q, "0.1", "1e-9", "0")
==============================================================================
