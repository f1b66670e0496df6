----------------------------- MODULE SpectraTrace ----------------------------
(* Recorded spectra (C20) and coherences (C22).                              *)
EXTENDS Spectra, TraceKit
MySt0 == <<RegSlope, RegIcpt>>
MyStep(s, e) == s
Mod(s, e) == e.m @@ [slope |-> s[1], icpt |-> s[2]]

OpsFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE IF Len(e.f) # 6 \/ ~e.shape THEN {"Shape"}
  ELSE LET w == OnePoint(Mod(s, e), e.k1, LogGrid(e.lo, e.hi, e.n))
           tr == RAdd(RAdd(w[1], w[2]), w[3]) IN
       If(\A n \in 1..6 : RClose(e.f[n], w[n], e.tol, RMul(e.tol, tr)), "DoubleIntegral")
       \cup If(\A n \in 1..3 : RLt(0, e.f[n]), "DiagonalPositive")
SignFail(e) == IF e.out # "ok" THEN {"Evaluates"}
               ELSE If(\A q \in 1..Len(e.f13) : RLe(e.f13[q], "0"), "UWNotPositive") \cup If(\A q \in 1..Len(e.diag) : RLt(0, e.diag[q]) /\ RFinite(e.diag[q]), "DiagonalPositive")
PropFail(e) == IF e.out # "ok" THEN {"Evaluates"}
               ELSE If(\A n \in 1..Len(e.f) : RClose(e.g[n], RMul(e.c, e.f[n]), e.tol, e.atol), "ProportionalToAmplitude")

CohFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE IF ~e.shape THEN {"Shape"}
  ELSE LET g == Scaled(LogGrid(e.lo, e.hi, e.n), RDiv("1", e.L0))
           w == Coherence(Mod(s, e), e.k1, e.r, g) IN
       If(\A n \in 1..3 : RClose(e.c[n], w[n], e.tol, e.tol), "Coherence")
       \cup If(\A n \in 1..3 : RLe(0, e.c[n]) /\ RLe(e.c[n], RAdd("1", e.tol)), "BetweenZeroAndOne")
       \cup If(IsZero(e.r) => \A n \in 1..3 : RClose(e.c[n], "1", "1e-6", "0"), "OneAtZeroSeparation")
       \cup If(\A n \in 1..3 : RClose(e.cneg[n], e.c[n], e.tol, e.tol), "EvenInSeparation")

\* a calibration with coherence data: the loss of an evaluation is misfit plus weighted coherence misfit
\* mod: modelled coherence per component, separation and frequency, at wavenumber factor*f/Uref; NaN free
LowF(f) == RLe(f, "1e-6")
CalFail(e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE LET full(cmp, i, j) == IF LowF(e.f[j]) THEN "1" ELSE e.mod[cmp][i][j]
           ns == Len(e.dat[1])  nf == Len(e.f)
           mse(cmp) == RMean([q \in 1..(ns * nf) |-> Sq(RSub(full(cmp, ((q - 1) \div nf) + 1, ((q - 1) % nf) + 1), e.dat[cmp][((q - 1) \div nf) + 1][((q - 1) % nf) + 1]))])
           coh == RMul(e.gamma, RDiv(RAdd(RAdd(mse(1), mse(2)), mse(3)), "3"))
       IN If(\A j \in 1..nf : RClose(e.k1[j], RDiv(RMul(e.factor, e.f[j]), e.uref), "1e-5", "0"), "Wavenumbers")
          \cup If(RClose(e.first, RAdd(e.mse, coh), "1e-3", "1e-6"), "CoherenceMisfit")

\* the energy spectra by themselves
EnergyFail(e) ==
  IF e.out # "ok" \/ Len(e.y) # Len(e.x) THEN {"Evaluates"}
  ELSE LET f(x) == CASE e.name = "vk" -> VonKarman(x) [] e.name = "vklike" -> VonKarmanLike(x) [] e.name = "learned" -> Learned(x, e.p, e.q) IN
       If(\A n \in 1..Len(e.x) : RClose(e.y[n], f(e.x[n]), e.tol, "0"), "EnergySpectrum") \cup If(e.intact, "InputIntact")

MyFail(s, e) ==
  CASE e.a = "ops" -> OpsFail(s, e)
    [] e.a = "sign" -> SignFail(e)
    [] e.a = "prop" -> PropFail(e)
    [] e.a = "coh" -> CohFail(s, e)
    [] e.a = "cal" -> CalFail(e)
    [] e.a = "energy" -> EnergyFail(e)
    [] OTHER -> {"UnknownEvent"}
==============================================================================
