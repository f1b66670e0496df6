------------------------------ MODULE LossTrace ------------------------------
(* Recorded evaluations of the loss (C16) and of its memory (C17).           *)
EXTENDS Loss, TraceKit

MySt0 == [hist |-> [n \in {"mse", "coherence", "pen1", "pen2", "regularization", "total"} |-> <<>>], avg |-> [n \in {"mse", "coherence", "pen1", "pen2", "regularization"} |-> "0"], mag |-> <<>>]
AllNames == DOMAIN MySt0.hist

ValueTerms(e) == Terms(e.y, e.d, e.th, e.coh, e.k, e.z, e.w)
IsNaNTerm(e) == LET t == ValueTerms(e) IN \E n \in 1..5 : RIsNaN(t[Names[n]])

\* directional derivative of the total along (dy, dth, dcoh)
Shift(rows, drows, eps) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> RAdd(rows[i][j], RMul(eps, drows[i][j]))]]
ShiftV(v, dv, eps) == [i \in 1..Len(v) |-> RAdd(v[i], RMul(eps, dv[i]))]
Moved(e, eps) == Total(Terms(Shift(e.y, e.dy, eps), e.d, ShiftV(e.th, e.dth, eps),
                             IF e.coh = <<>> THEN <<>> ELSE [n \in 1..6 |-> IF n <= 3 THEN Shift(e.coh[n], e.dcoh[n], eps) ELSE e.coh[n]], e.k, e.z, e.w))
GradFail(e) ==
  LET h == "1e-5"
      p == Moved(e, h)
      m == Moved(e, RNeg(h))
      fd == RDiv(RSub(p, m), RMul("2", h))
      kink == RDiv(RAbs(RAdd(RSub(p, RMul("2", Total(ValueTerms(e)))), m)), h)
  IN If(RLe(RAbs(RSub(e.grad, fd)), RAdd(RMul("2", kink), RAdd("1e-6", RMul("1e-4", RAdd(RAbs(fd), RAbs(e.gscale)))))), "Gradient")

LossFail(e) ==
  IF IsNaNTerm(e) THEN If(e.out = "ValueError", "NaNRefused")
  ELSE IF e.out # "ok" THEN {"Evaluates"}
  ELSE LET t == ValueTerms(e) IN
       If(RClose(e.total, Total(t), e.tol, e.atol), "Total")
       \cup If(\A n \in 1..5 : RClose(e.rec[Names[n]], t[Names[n]], e.tol, e.atol), "Terms")
       \cup If(\A n \in 1..5 : RLe(0, e.rec[Names[n]]), "NonNegative")
       \cup If(e.extra # "none" => RClose(e.extra, RSub(Total(t), t.mse), e.tol, RAdd(e.atol, RMul(e.tol, t.mse))), "TermsBesideMisfit")
       \cup If(e.intact, "InputsIntact")
       \cup (IF e.hasgrad THEN GradFail(e) ELSE {})

\* ---- memory
HStep(s, e) == IF e.out = "ok" THEN [mag |-> s.mag, hist |-> [n \in AllNames |-> Append(s.hist[n], e.val[n])],
                                    avg |-> [n \in DOMAIN s.avg |-> EmaStep(s.avg[n], s.hist[n] = <<>>, e.val[n])]]
              ELSE s
HistFail(s, e) ==
  If(e.full => \A n \in AllNames : Len(e.hist[n]) = Len(s.hist[n]) /\ \A q \in 1..Len(s.hist[n]) : RClose(e.hist[n][q], s.hist[n][q], "1e-12", "0"), "History")
  \cup If(\A n \in DOMAIN s.avg : RClose(e.avg[n], s.avg[n], "1e-9", "1e-15"), "RunningAverage")
HFail(s, e) ==
  IF e.spoiled THEN If(e.out = "ValueError", "NaNRefused") \cup HistFail(s, e)
  ELSE If(e.out = "ok", "Evaluates") \cup HistFail(HStep(s, e), e)
       \cup If(e.out = "ok" => RClose(e.ret, e.val["total"], "1e-6", "0"), "TotalIsReturned")
       \cup If(e.out = "ok" => RClose(e.val["total"], RSum([n \in 1..5 |-> e.val[Names[n]]]), "1e-5", "1e-12"), "TotalIsSum")

N(s) == Len(s.hist["total"])
Near(x, t) == RClose(x, t, "1e-9", "1e-12")
Means(s, w) == [n \in {Names[q] : q \in 1..5} |-> RMean(Last(s.hist[n], w))]
MaxMean(s, w) == RMaxSeq([q \in 1..5 |-> Means(s, w)[Names[q]]])
MinMean(s, w) == RMinSeq([q \in 1..5 |-> Means(s, w)[Names[q]]])
Dominance(s, w) == RDiv(MaxMean(s, w), RMax(MinMean(s, w), "1e-8"))
DiagFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE IF N(s) < e.w THEN If(e.empty, "EmptyBeforeWindow")
  ELSE IF e.empty THEN {"Diagnostics"}
  ELSE LET t == Last(s.hist["total"], e.w) IN
       If(\A n \in AllNames : RClose(e.mean[n], RMean(Last(s.hist[n], e.w)), "1e-9", "1e-14"), "Mean")
       \cup If(\A n \in AllNames : RClose(e.std[n], Std(Last(s.hist[n], e.w)), "1e-6", RAdd("1e-14", RMul("1e-7", RMaxSeq(Last(s.hist[n], e.w))))), "Deviation")
       \cup If(RClose(e.dom, Dominance(s, e.w), "1e-9", "0"), "DominanceRatio")
       \cup If(RClose(Means(s, e.w)[e.domname], MaxMean(s, e.w), "1e-9", "1e-15"), "DominantTerm")
       \cup If(e.w >= 2 => RClose(e.imp, Improvement(t), "1e-7", "1e-9"), "Improvement")
       \cup If(e.w >= 2 => RClose(e.stab, Stability(t), "1e-7", "0"), "Stability")

AdvFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE LET full == N(s) >= e.w
           t == IF full THEN Last(s.hist["total"], e.w) ELSE <<>>
           imp == IF full THEN Improvement(t) ELSE "0"
           stab == IF full THEN Stability(t) ELSE "1"
           dom == IF full THEN Dominance(s, e.w) ELSE "0"
           a == Advice(e.epoch, e.w, N(s), imp, stab, dom)
           close == full /\ (Near(imp, "0.01") \/ Near(stab, "0.3") \/ Near(dom, "100"))
       IN IF close THEN {}
          ELSE If(e.reason = a, "Advice")
               \cup If(e.adjust = Adjusts(e.reason), "AdjustFlag")
               \cup If(Adjusts(e.reason) => RClose(e.factor, FactorOf(e.reason), "1e-12", "0"), "Factor")
InfoFail(s, e) ==
  IF N(s) = 0 THEN If(e.empty, "InfoEmpty")
  ELSE If(~e.empty /\ RClose(e.total, s.hist["total"][N(s)], "1e-12", "0") /\ RClose(e.mse, s.hist["mse"][N(s)], "1e-12", "0") /\ RClose(e.msea, s.avg["mse"], "1e-9", "1e-15")
          /\ RClose(e.coh, s.hist["coherence"][N(s)], "1e-12", "0") /\ RClose(e.coha, s.avg["coherence"], "1e-9", "1e-15"), "Info")

ScaleFail(s, e) ==
  LET m == ScaleStep(s.mag, e.epoch, e.mse, e.coh) IN
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE If(RClose(e.scales[1], ScaleOf(m[1]), "1e-6", "0") /\ RClose(e.scales[2], ScaleOf(m[2]), "1e-6", "0"), "BalancingScales")

MyStep(s, e) == IF e.a = "ev" THEN HStep(s, e) ELSE IF e.a = "scale" /\ e.out = "ok" THEN [s EXCEPT !.mag = ScaleStep(@, e.epoch, e.mse, e.coh)] ELSE s
MyFail(s, e) ==
  CASE e.a = "loss" -> LossFail(e)
    [] e.a = "ev" -> HFail(s, e)
    [] e.a = "diag" -> DiagFail(s, e)
    [] e.a = "adv" -> AdvFail(s, e)
    [] e.a = "scale" -> ScaleFail(s, e)
    [] e.a = "info" -> InfoFail(s, e)
    [] OTHER -> {"UnknownEvent"}
==============================================================================
