-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* The calibration loss (C16) and what is remembered of it (C17).          *)
(* y, d: sequences of rows (one per component) over the wavenumbers k.     *)
(* w: the weights [a1, a2, b, g].                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Sq(x) == RMul(x, x)
Relu(x) == RMax(x, "0")
Flat(rows, F(_, _)) == \* all values F(row, column)
  LET n == Len(rows[1]) IN [q \in 1..(Len(rows) * n) |-> F(((q - 1) \div n) + 1, ((q - 1) % n) + 1)]
Positive(w) == RLt(0, w)

Mse(y, d) == RMean(Flat(y, LAMBDA i, j : Sq(RLn(RAbs(RDiv(y[i][j], d[i][j]))))))

LogAbs(row) == [j \in 1..Len(row) |-> RLn(RAbs(row[j]))]
Diff(s) == [j \in 1..(Len(s) - 1) |-> RSub(s[j + 1], s[j])]
Slopes(y, k) == \* dlog|y| / dlog k, row by row
  LET h == Diff([j \in 1..Len(k) |-> RLn(k[j])]) IN
  [i \in 1..Len(y) |-> LET dl == Diff(LogAbs(y[i])) IN [j \in 1..Len(dl) |-> RDiv(dl[j], h[j])]]
Mids(k) == LET lk == [j \in 1..Len(k) |-> RLn(k[j])] IN [j \in 1..(Len(k) - 1) |-> RMul("0.5", RAdd(lk[j], lk[j + 1]))]
Curvatures(y, k) ==
  LET s == Slopes(y, k)
      h == Diff(Mids(k)) IN
  [i \in 1..Len(y) |-> LET ds == Diff(s[i]) IN [j \in 1..Len(ds) |-> RDiv(ds[j], h[j])]]

Pen1(y, k, a, z) == IF ~Positive(a) THEN "0" ELSE LET s == Slopes(y, k) IN RDiv(RMul(a, RMean(Flat(s, LAMBDA i, j : Sq(Relu(s[i][j]))))), z)
Pen2(y, k, a, z) == IF ~Positive(a) THEN "0" ELSE LET s == Curvatures(y, k) IN RDiv(RMul(a, RMean(Flat(s, LAMBDA i, j : Sq(Relu(s[i][j]))))), Sq(z))
Reg(th, b) == IF ~Positive(b) \/ th = <<>> THEN "0" ELSE RMul(b, RMean([n \in 1..Len(th) |-> Sq(th[n])]))
CohOne(m, d) == RMean(Flat(m, LAMBDA i, j : Sq(RSub(m[i][j], d[i][j]))))
\* coh: <<>> or <<model_u, model_v, model_w, data_u, data_v, data_w>>
Coh(c, g) == IF ~Positive(g) \/ c = <<>> THEN "0"
             ELSE RMul(g, RDiv(RSum([n \in 1..3 |-> CohOne(c[n], c[n + 3])]), "3"))

Terms(y, d, th, c, k, z, w) ==
  [mse |-> Mse(y, d), pen1 |-> Pen1(y, k, w.a1, z), pen2 |-> Pen2(y, k, w.a2, z), regularization |-> Reg(th, w.b), coherence |-> Coh(c, w.g)]
Total(t) == RSum(<<t.mse, t.pen1, t.pen2, t.regularization, t.coherence>>)

Names == <<"mse", "coherence", "pen1", "pen2", "regularization">>

\* exponential average of a sequence, weight 0.9 on the past, started at the first value
RECURSIVE Ema(_)
Ema(s) == IF Len(s) = 1 THEN s[1] ELSE RAdd(RMul("0.9", Ema(SubSeq(s, 1, Len(s) - 1))), RMul(RSub("1", "0.9"), s[Len(s)]))
EmaStep(avg, first, x) == IF first THEN x ELSE RAdd(RMul("0.9", avg), RMul(RSub("1", "0.9"), x))

\* magnitudes kept to balance the terms: taken at the first call, then averaged at every tenth epoch
Given(c) == c # "none" /\ ~RClose(c, "0", "0", "0")
ScaleStep(m, epoch, mse, coh) ==           \* m: <<>> or <<magnitude of the misfit, of the coherence>>
  IF m = <<>> THEN <<mse, IF Given(coh) THEN coh ELSE "1">>
  ELSE IF epoch % 10 # 0 THEN m
  ELSE <<EmaStep(m[1], FALSE, mse), IF Given(coh) THEN EmaStep(m[2], FALSE, coh) ELSE m[2]>>
ScaleOf(x) == RDiv("1", RMax(x, "1e-8"))

Last(s, w) == SubSeq(s, Len(s) - w + 1, Len(s))
Std(s) == LET m == RMean(s) IN RSqrt(RMean([n \in 1..Len(s) |-> Sq(RSub(s[n], m))]))
Improvement(s) ==                          \* s: the last w totals
  LET w == Len(s)
      early == RMean(SubSeq(s, 1, w \div 2))
      late == RMean(SubSeq(s, (w \div 2) + 1, w))
  IN RDiv(RSub(early, late), RMax(early, "1e-8"))
Stability(s) == RDiv("1", RAdd("1", Std(s)))

Advice(epoch, w, n, imp, stab, dom) ==     \* n: number of evaluations made
  IF epoch < w THEN "insufficient_data"
  ELSE IF n < w THEN "no_diagnostics"
  ELSE IF RLt(imp, "0.01") THEN "stagnation"
  ELSE IF RLt(stab, "0.3") THEN "instability"
  ELSE IF RLt("100", dom) THEN "component_dominance"
  ELSE "healthy_training"
FactorOf(reason) == CASE reason = "stagnation" -> "0.5" [] reason = "instability" -> "0.3" [] reason = "component_dominance" -> "0.7" [] OTHER -> "1"
Adjusts(reason) == reason \in {"stagnation", "instability", "component_dominance"}
=============================================================================
