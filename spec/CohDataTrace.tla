---------------------------- MODULE CohDataTrace -----------------------------
EXTENDS CohData, Real64, TraceKit
MySt0 == 0
MyStep(s, e) == s
\* same up to reading and printing a number; "nan" only for "nan"
SameNum(a, b) == IF a = "nan" \/ b = "nan" THEN a = b ELSE RClose(a, b, "1e-12", "0")
SameSeq(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : SameNum(a[n], b[n])
SameTab(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : SameSeq(a[n], b[n])
MyFail(s, e) ==
  IF e.out # "ok" THEN {"Loads"}
  ELSE LET w == TLCEval(Loaded(e.file)) IN
       If(SameSeq(e.seps, w.seps), "Separations")
       \cup If(SameSeq(e.freqs, w.freqs), "Frequencies")
       \cup If(SameTab(e.u, w.u) /\ SameTab(e.v, w.v) /\ SameTab(e.w, w.w), "Placed")
       \cup If(e.shape = <<Len(w.seps), Len(w.freqs)>>, "Shape")
       \cup If(e.sel = [n \in 1..4 |-> w.sel[n] - 1] /\ SameSeq(e.selseps, [n \in 1..4 |-> w.seps[w.sel[n]]]), "Selected")
       \cup If(e.others, "OtherProblemsUntouched")
==============================================================================
