------------------------------- MODULE Evals ---------------------------------
(* Evaluation of one model over time (C19).  A model has parameters (v) and   *)
(* scratch space that evaluations overwrite (grid, energy: what the last      *)
(* evaluation left there).  Results handed out stay what they were.           *)
(*                                                                            *)
(* An evaluation is described as the code performs it: it writes the grid of  *)
(* the wavenumbers asked for, derives the energy from it and only then reads  *)
(* both; the coherence keeps its own grid.  Val is the value the documented   *)
(* integrals assign to a point: it does not mention the scratch space.        *)
(* own: an array of the caller's that it fills anew between evaluations;      *)
(* an evaluation uses its contents at the time of the call.                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Pts, MaxV, MaxRes
VARIABLES v, grid, energy, results, own
evars == <<v, grid, energy, results, own>>

Val(kind, par, x) == <<kind, par, x>>
Orders == {s \in UNION {[1..n -> Pts] : n \in 1..2} : TRUE}

Init == v = 0 /\ grid = <<>> /\ energy = <<>> /\ results = <<>> /\ own = <<1>>

\* what an evaluation computes from the scratch space it has just filled
FromScratch(kind, g, en) == [n \in 1..Len(g) |-> <<kind, en[n][1], g[n]>>]

EvalSpectra(s) ==
  /\ Len(results) < MaxRes
  /\ grid' = s
  /\ energy' = [n \in 1..Len(s) |-> <<v, s[n]>>]
  /\ results' = Append(results, [kind |-> "ops", par |-> v, pts |-> s, vals |-> FromScratch("ops", grid', energy')])
  /\ UNCHANGED <<v, own>>
EvalCoherence(s) ==
  /\ Len(results) < MaxRes
  /\ results' = Append(results, [kind |-> "coh", par |-> v, pts |-> s, vals |-> FromScratch("coh", s, [n \in 1..Len(s) |-> <<v, s[n]>>])])
  /\ UNCHANGED <<v, grid, energy, own>>
EvalLifetime(s) ==
  /\ Len(results) < MaxRes
  /\ results' = Append(results, [kind |-> "tau", par |-> v, pts |-> s, vals |-> [n \in 1..Len(s) |-> <<"tau", v, s[n]>>]])
  /\ UNCHANGED <<v, grid, energy, own>>
\* plotting and saving evaluate for themselves and hand nothing out
Look(s) == grid' = s /\ energy' = [n \in 1..Len(s) |-> <<v, s[n]>>] /\ UNCHANGED <<v, results, own>>
Change(s) == v < MaxV /\ v' = v + 1 /\ grid' = s /\ energy' = [n \in 1..Len(s) |-> <<v, s[n]>>] /\ UNCHANGED <<results, own>>
\* the caller's own array
Refill(s) == own' = s /\ UNCHANGED <<v, grid, energy, results>>
EvalOwn == EvalSpectra(own) \/ EvalCoherence(own) \/ EvalLifetime(own)

Next == \E s \in Orders : EvalSpectra(s) \/ EvalCoherence(s) \/ EvalLifetime(s) \/ Look(s) \/ Change(s) \/ Refill(s) \/ EvalOwn
Spec == Init /\ [][Next]_evars

(* the property *)
ValueOfPoint == \A n \in 1..Len(results) : \A m \in 1..Len(results[n].pts) :
                  results[n].vals[m] = Val(results[n].kind, results[n].par, results[n].pts[m])
OnlyChangeChanges == [][v' # v => \E s \in Orders : Change(s)]_evars
ResultsStay == [][SubSeq(results', 1, Len(results)) = results]_evars
==============================================================================
