--------------------------- MODULE ConstructTrace ----------------------------
EXTENDS Construct, Real64, TraceKit
MySt0 == 0
MyStep(s, e) == s
Refused(e, doc) == If(e.out # "ok" /\ (doc => e.out \in {"ValueError", "AssertionError"}), "Refused")
Net(e) == IF ~NetOK(e.n, e.s, e.acts) THEN Refused(e, TRUE)
          ELSE IF e.out # "ok" THEN {"Admitted"}
          ELSE If(e.weights = Weights(e.n, e.s) /\ e.count = NetParams(e.n, e.s, e.nu), "Sizes")
               \cup If(e.runs, "Runs") \cup If(e.apart, "NoSharing")
Prob(e) == IF ~ProblemOK(e.nc, e.phys) THEN Refused(e, TRUE)
           ELSE IF e.out # "ok" THEN {"Admitted"}
           ELSE If(e.len = VectorLen(e.et, e.n, e.hid, e.nu, e.sp), "Sizes")
                \cup If(e.trainable = (IF e.et = "TAUNET" THEN VectorLen(e.et, e.n, e.hid, e.nu, FALSE) - 3 ELSE -1), "TrainableCount")
                \cup If(e.norm, "TrainableNorm")
                \cup If(e.early, "NothingCalibratedYet")
                \cup If(\A q \in 1..3 : RClose(e.scales[q], RLn(e.given[q]), e.tol, e.tol), "StartsAtScales")
                \cup If(e.noise # "no" => RLe(e.shift, RMul("10", e.noise)) /\ (RLt("0", e.noise) /\ e.len > 3 => RLt("0", e.shift)), "NoiseOfMagnitude")
                \* white: as many parameters up as down, by the magnitude on average
                \cup If((e.noise # "no" /\ RLe("1e-5", e.noise) /\ e.len >= 63) =>
                        /\ RLt(RMul("0.5", e.noise), e.rms) /\ RLt(e.rms, RMul("1.7", e.noise)) /\ RLt("0.2", e.down) /\ RLt(e.down, "0.8"), "NoiseIsWhite")
                \cup If(e.runs, "Runs") \cup If(e.apart, "NoSharing")
Gen(e) == IF ~GenOK(e.m, {e.missing[q] : q \in 1..Len(e.missing)}, e.path, e.nd, e.nl) THEN Refused(e, e.m \notin Models \/ (e.m # "DRD" /\ e.missing # <<>>) \/ (e.m = "DRD" /\ e.path = "none"))
          ELSE IF e.out # "ok" THEN {"Admitted"}
          ELSE If(e.block = [q \in 1..3 |-> 2 ^ e.lv[q] + 1], "Sizes") \cup If(e.empty, "StartsEmpty") \cup If(e.apart, "NoSharing")
Kernel(e) == IF ~KernelOK(e.ndim) THEN Refused(e, TRUE) ELSE If(e.out = "ok", "Admitted")
Dom(e) == IF ~DomainOK(e.nd, e.nl) THEN Refused(e, TRUE)
          ELSE IF e.out # "ok" THEN {"Admitted"} ELSE If(e.same, "Sizes")
Other(e) == IF e.ok THEN If(e.out = "ok", "Admitted") ELSE Refused(e, FALSE)
\* a value is what the table says
IsDefault(v, d) ==
  IF d \in Words \/ v \in Words THEN v = d
  ELSE RClose(v, IF d = "1/2pi" THEN RDiv("0.5", RPi)
                 ELSE IF \E f \in Fractions : f[1] = d THEN LET f == CHOOSE f \in Fractions : f[1] = d IN RDiv(f[2], f[3]) ELSE d, "1e-9", "0")
Def(e) == IF e.out # "ok" THEN {"Admitted"}
          ELSE LET t == Defaults[e.cls] IN
               If(\A q \in 1..Len(t) : \E i \in 1..Len(e.vals) : e.vals[i][1] = t[q][1] /\ IsDefault(e.vals[i][2], t[q][2]), "Defaults")
               \cup If(e.apart, "NoSharing") \cup If(e.takes, "TakesWhatIsGiven")
MyFail(s, e) ==
  If(e.intact, "ArgumentsUnchanged") \cup
  CASE e.a_ = "net" -> Net(e)
    [] e.a_ = "prob" -> Prob(e)
    [] e.a_ = "gen" -> Gen(e)
    [] e.a_ = "kernel" -> Kernel(e)
    [] e.a_ = "domain" -> Dom(e)
    [] e.a_ = "default" -> Def(e)
    [] e.a_ = "other" -> Other(e)
==============================================================================
