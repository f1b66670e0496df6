----------------------------- MODULE RunLogTrace -----------------------------
(* Logs of real runs, read back from the files TensorBoard reads (C29).       *)
EXTENDS RunLog, TraceKit

\* runs: per run [w, n, avg, log, excused]: the steps of evaluations that failed
MySt0 == [runs |-> <<>>]
Put(s, r, x) == [s EXCEPT !.runs[r] = x]
MyStep(s, e) ==
  CASE e.a = "open" -> [s EXCEPT !.runs = Append(@, [w |-> e.w, n |-> 0, avg |-> NoAvg, log |-> <<>>, excused |-> {}])]
    [] e.a = "ev" -> LET x == s.runs[e.r] IN
         IF e.out # "ok" THEN Put(s, e.r, [x EXCEPT !.excused = @ \cup {e.step}])
         ELSE LET a == AvgStep(x.avg, x.n = 0, e.val) IN
              Put(s, e.r, [x EXCEPT !.n = @ + 1, !.avg = a, !.log = @ \o Entries(x.w, e.step, e.val, e.coh # <<>>, e.th,
                              IF e.coh = <<>> THEN <<>> ELSE [n \in 1..3 |-> CohOne(e.coh[n], e.coh[n + 3])], a)])
    [] OTHER -> s

Match(got, want, tol) == Len(got) = Len(want) /\ \A n \in 1..Len(got) : got[n].step = want[n].step /\ RClose(got[n].val, want[n].val, tol, "1e-37")
\* series: tag -> sequence of [step, val], for the tags that occur
Series(e, tag) == IF tag \in DOMAIN e.series THEN e.series[tag] ELSE <<>>
Steady(seq, ex) == SelectSeq(seq, LAMBDA x : x.step \notin ex)
ReadFail(s, e) ==
  LET x == s.runs[e.r] IN
  If(DOMAIN e.series \subseteq Tags \/ x.excused # {}, "KnownTerms")
  \cup If(\A n \in 1..8 : Match(Steady(Series(e, TagSeq[n]), x.excused), Steady(OfTag(x.log, TagSeq[n]), x.excused), e.tol), "EveryTermOncePerEvaluation")
  \cup If(\A n \in 9..12 : Match(Steady(Series(e, TagSeq[n]), x.excused), Steady(OfTag(x.log, TagSeq[n]), x.excused), e.tol), "SharesOfTheAverages")
  \cup If(e.elsewhere, "InItsDirectory")

\* a calibration: hist, the terms of its evaluations; the first without coherences at step 0, then steps 0, 1, ...
StepOf(n) == IF n = 1 THEN 0 ELSE n - 2
RECURSIVE Run(_, _, _, _)
Run(e, n, avg, log) ==
  IF n > Len(e.hist.mse) THEN log
  ELSE LET t == [m \in DOMAIN NoAvg |-> e.hist[m][n]]
           a == AvgStep(avg, n = 1, t) IN
       Run(e, n + 1, a, log \o SelectSeq(Entries(e.w, StepOf(n), t, e.coh /\ n > 1, e.th, <<"0", "0", "0">>, a), LAMBDA x : x.tag \notin {CompTags[q] : q \in 1..3}))
CalibFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE LET want == Run(e, 1, NoAvg, <<>>) IN
       If(Len(e.hist.mse) = e.evals, "EveryEvaluationRemembered")
       \cup If(\A n \in 1..12 : n \in 6..8 \/ Match(Series(e, TagSeq[n]), OfTag(want, TagSeq[n]), e.tol), "LogOfTheCalibration")
       \cup If(DOMAIN e.series \subseteq Tags, "KnownTerms")
       \cup If(e.earlier, "EarlierLogsKept")
       \cup If(e.files = 1, "OneLogPerCalibration")

MyFail(s, e) ==
  CASE e.a = "open" -> If(e.out = "ok", "Evaluates") \cup If(e.newdir, "InItsDirectory")
    [] e.a = "ev" -> If(e.out = (IF e.spoiled THEN "ValueError" ELSE "ok"), IF e.spoiled THEN "NaNRefused" ELSE "Evaluates")
    [] e.a = "read" -> ReadFail(s, e)
    [] e.a = "calib" -> CalibFail(s, e)
    [] OTHER -> {"UnknownEvent"}
==============================================================================
