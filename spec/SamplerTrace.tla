---------------------------- MODULE SamplerTrace ----------------------------
(* Recorded uses of samplers (C08).  "def": values of the images of the     *)
(* base arrays at probe points, from fresh samplers.  "use": a call on a    *)
(* used sampler; the input is sum co[n]*base[n].  "mode": one Fourier mode. *)
EXTENDS Integers, Sequences, Real64, TraceKit

MySt0 == [base |-> <<>>, cst |-> <<>>]
MyStep(s, e) == CASE e.a = "def" -> [s EXCEPT !.base = e.base]
                  [] e.a = "mode" -> IF s.cst = <<>> /\ e.lead THEN [s EXCEPT !.cst = <<RDiv(e.u[e.c], e.gx[e.c])>>] ELSE s
                  [] OTHER -> s

Comb(s, co, p) == RSum([n \in 1..Len(co) |-> RMul(co[n], s.base[n][p])])
UseFail(s, e) ==
  LET np == Len(s.base[1])
      sc == RMax("1e-30", RMaxSeq([n \in 1..Len(e.co) |-> RMul(RAbs(e.co[n]), RMaxSeq([p \in 1..np |-> RAbs(s.base[n][p])]))]))
  IN If(e.out = "ok", "Samples")
     \cup (IF e.out # "ok" THEN {} ELSE
           If(Len(e.v) = np /\ \A p \in 1..np : RClose(e.v[p], Comb(s, e.co, p), "0", RMul(sc, e.tol)), "LinearAndHistoryFree")
           \cup If(e.insame, "InputUntouched")
           \cup If(e.older, "EarlierResultsIntact")
           \cup If(e.shape, "Shape")
           \cup If(e.real, "Real"))

\* u, gx: real and imaginary parts of the mode of the result and of G times the mode of the noise
ModeFail(s, e) ==
  IF s.cst = <<>> THEN (IF e.lead THEN If(RLt(0, RDiv(e.u[e.c], e.gx[e.c])), "PositiveConstant") ELSE {})
  ELSE If(Len(e.u) = Len(e.gx) /\ \A n \in 1..Len(e.u) : RClose(e.u[n], RMul(s.cst[1], e.gx[n]), "0", RMul(RMul(RAbs(s.cst[1]), e.sc), e.tol)), "KernelTimesNoise")

NoiseFail(e) == If(e.out = "ok" /\ \A n \in 1..Len(e.x) : RClose(e.x[n], RMul(e.n[n], RSqrt(RMul(RMul(e.hh[1], e.hh[2]), e.hh[3]))), "1e-12", "0"), "WhiteNoise")

MyFail(s, e) ==
  CASE e.a = "def" -> If(e.out = "ok", "Samples")
    [] e.a = "use" -> UseFail(s, e)
    [] e.a = "mode" -> ModeFail(s, e)
    [] e.a = "unknown" -> If(e.out # "ok", "UnknownMethodRefused")
    [] e.a = "noise" -> NoiseFail(e)
    [] OTHER -> {"UnknownEvent"}
=============================================================================
