------------------------------ MODULE CalibTrace -----------------------------
(* Recorded calibrations (C15) and fits of selected components (C18).        *)
EXTENDS Calib, Loss, TraceKit

MySt0 == <<>>
MyStep(s, e) == s

LossOf(ep) == ep.losses[Len(ep.losses)]
Losses(e) == [n \in 1..Len(e.epochs) |-> LossOf(e.epochs[n])]
Bad(e) == \E n \in 1..Len(e.epochs) : ~RFinite(LossOf(e.epochs[n]))

\* Every 50 epochs the advice on the last 50 evaluations is taken (with the misfit as the only term, a mean above
\* 1e-6 dominates the absent ones).
RECURSIVE Evals(_, _)
Evals(e, m) == IF m = 0 THEN <<>> ELSE Evals(e, m - 1) \o e.epochs[m].losses
AdviceAt(e, m) == LET s == Last(Evals(e, m), 50) IN Advice(m, 50, 50, Improvement(s), Stability(s), RDiv(RMean(s), "1e-8"))
RECURSIVE Factor(_, _)
Factor(e, m) == IF m < 50 THEN "1" ELSE IF m % 50 # 0 THEN Factor(e, m - 1) ELSE RMul(Factor(e, m - 1), FactorOf(AdviceAt(e, m)))

RunFail(e) ==
  LET n == Len(e.epochs) IN
  If(n <= e.max, "AtMost")
  \cup If(e.intact, "DataIntact")
  \cup (IF e.out # "ok"
        THEN If(e.spoiled \/ e.mayfail, "AdmissibleFitFails")
             \cup If(e.out \in {"ValueError", "RuntimeError"}, "ErrorKind")
             \cup If(~e.fresh, "NoParametersFromFailure")
        ELSE If(~Bad(e) /\ ~e.spoiled, "NonFiniteRaises")
             \cup If(Bad(e) \/ n = Epochs(Losses(e) \o [m \in 1..e.max |-> "1e300"], e.max, e.tol), "StopRule")
             \cup If(\A m \in 1..n : RClose(e.epochs[m].lr, RMul(Rate(e.lr, m, e.max), Factor(e, m - 1)), "1e-9", "1e-15"), "LearningRate")
             \cup If(\A m \in 1..n : e.epochs[m].covered = e.nparam, "EveryParameterOptimised")
             \cup If(e.opt = "Adam" => Len(e.moved) = 0, "EveryParameterMoves")
             \cup If(e.opt = "LBFGS" => \A m \in 1..n : e.epochs[m].iters = e.wolfe, "LineSearchBudget")
             \cup If(e.opt = "Adam" => \A m \in 1..n : Len(e.epochs[m].losses) = 1, "OneEvaluationPerAdamEpoch")
             \cup If(\A m \in 1..3 : RClose(e.res[m], RExp(e.theta[m]), e.eps, "0"), "ResultIsExpOfVector")
             \cup If(Len(e.res) = 3 + (IF e.learn THEN 2 ELSE 0) /\ (e.learn => e.res[4] = e.theta[4] /\ e.res[5] = e.theta[5]), "Exponents")
             \cup If(e.stored, "StoredIsReturned")
             \cup If(e.again # <<>> => RCloseSeq(e.again, e.theta, e.rtol, "1e-6"), "Reproducible"))

FitFail(e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE LET y == [n \in 1..e.nc |-> e.model[n]]
           d == [n \in 1..e.nc |-> [q \in 1..Len(e.k) |-> e.data[q][RowCol[n][1]][RowCol[n][2]]]]
           t == Terms(y, d, e.th, <<>>, e.k, e.z, e.w)
       IN If(\A m \in 1..Len(e.first) : RClose(e.first[m], Total(t), e.tol, "1e-9"), "LossOfSelected")

InflFail(e) == IF e.out # "ok" THEN {"Evaluates"}
               ELSE If(e.selected = (~RCloseSeq(e.A, e.B, "1e-7", "0")), "InfluenceOfSelectedOnly")

\* panels: sequence of [comp, x, model, data]; data is <<>> if none is drawn
PlotFail(e) ==
  IF e.out # "ok" THEN {"Draws"}
  ELSE LET P(c) == e.panels[CHOOSE n \in 1..Len(e.panels) : e.panels[n].comp = c]
           Sgn(n) == IF n = 4 THEN "-1" ELSE "1"
           us == Sq(e.ustar)
       IN IF {e.panels[n].comp : n \in 1..Len(e.panels)} # {Components[n] : n \in 1..6} THEN {"Panels"}
          ELSE If(\A n \in 1..6 : RCloseSeq(P(Components[n]).x, e.k, "1e-6", "0"), "Abscissae")
               \cup If(\A n \in 1..6 : RCloseSeq(P(Components[n]).model, [q \in 1..Len(e.k) |-> RMul(Sgn(n), RDiv(e.model[n][q], us))], "1e-5", "1e-12"), "ModelInItsPanel")
               \cup If(\A n \in 1..6 : IF n > e.nc THEN P(Components[n]).data = <<>>
                                       ELSE RCloseSeq(P(Components[n]).data, [q \in 1..Len(e.k) |-> RMul(Sgn(n), RDiv(e.data[q][RowCol[n][1]][RowCol[n][2]], us))], "1e-5", "1e-12"), "DataInItsPanel")

MyFail(s, e) ==
  CASE e.a = "run" -> RunFail(e)
    [] e.a = "fit" -> FitFail(e)
    [] e.a = "infl" -> InflFail(e)
    [] e.a = "plot" -> PlotFail(e)
    [] e.a = "nc" -> If((e.out = "ok") = Admissible(e.nc), "AdmissibleCount")
    [] OTHER -> {"UnknownEvent"}
==============================================================================
