----------------------------- MODULE FieldTrace -----------------------------
(* Values of recorded wind fields against Window: C03 (event "win"), C04    *)
(* ("prof", "law"), C12 ("lf").                                             *)
EXTENDS Window, TraceKit

MySt0 == 0
MyStep(s, e) == s

Rms(x) == RSqrt(RDiv(RDot(x, x), Len(x)))

\* C03: got is block b as generated (profile negligible), ref the central part of the
\* kernel applied to the specified planes of the stream, both flattened
WinFail(e) ==
  IF e.out # "ok" THEN {"Generates"} ELSE
  LET n == e.c.geo.n
      g == Rms(e.got) r == Rms(e.ref)
  IN If(Len(e.got) = n[1] * n[2] * n[3] * 3, "BlockShape")
     \cup If(Len(e.ref) = n[1] * n[2] * n[3] * 3, "ReferenceShape")
     \cup If(RLt(0, r) /\ RLt(0, g) /\ Len(e.got) = Len(e.ref)
             /\ RCloseSeq([i \in 1..Len(e.got) |-> RDiv(e.got[i], g)],
                          [i \in 1..Len(e.ref) |-> RDiv(e.ref[i], r)], "0.0", e.tol), "CorrelatedWindow")

\* C04: block with profile p minus the same block with a vanishing profile
ProfFail(e) ==
  IF e.out # "ok" THEN {"Generates"} ELSE
  LET nz == Pow2(e.c.lv[3]) + 1
      scale == RMax(1, RMaxSeq([k \in 1..nz |-> RAbs(Profile(e.p, Height(e.c, k)))]))
      tol == RMul(scale, "1e-9")
  IN If(Len(e.mean) = nz, "Heights")
     \cup If(Len(e.mean) = nz /\ \A k \in 1..nz : RClose(e.mean[k], Profile(e.p, Height(e.c, k)), "1e-9", tol), "ProfileValue")
     \cup If(\A k \in 1..Len(e.spread) : RLe(e.spread[k], RMul(scale, "1e-9")), "HeightOnly")
     \cup If(RLe(e.other, "1e-9"), "StreamwiseOnly")
     \cup If(RClose(e.rms, "1", "1e-6", "1e-9"), "UnitRMS")
     \cup If(e.finite, "Finite")

LawFail(e) ==
  If(e.out = "ok" /\ \A k \in 1..Len(e.z) : RClose(e.u[k], Profile(e.p, e.z[k]), "1e-10", "1e-12"), "Law")

\* C12: fields with and without the low-frequency part, block b
LfFail(e) ==
  IF e.out # "ok" THEN {"Generates"} ELSE
  LET hx == RDiv(e.lf.L1, Len(e.lf.u1)) hy == RDiv(e.lf.L2, Len(e.lf.u1[1]))
      Edge(i, j) == \/ NearEdge(XOf(e.c, e.b, i), Len(e.lf.u1), hx)
                    \/ NearEdge(YOf(e.c, e.lf, j), Len(e.lf.u1[1]), hy)
      tol == RAdd("1e-9", RMul("1e-9", e.lf.max))
      Good(d, t) == \A i \in 1..Len(d), j \in 1..Len(d[1]) :
                       Edge(i - 1, j - 1) \/ RClose(d[i][j], Interp(t, XOf(e.c, e.b, i - 1), YOf(e.c, e.lf, j - 1), hx, hy), "1e-8", tol)
  IN If(Len(e.du) = Pow2(e.c.lv[1]) + 1 /\ Len(e.du[1]) = Pow2(e.c.lv[2]) + 1, "Shape")
     \cup If(Good(e.du, e.lf.u1), "StreamwiseLF")
     \cup If(Good(e.dv, e.lf.u2), "LateralLF")
     \cup If(RLe(e.dw, "1e-10"), "VerticalUntouched")
     \cup If(RLe(e.zspread, tol), "ConstantInHeight")

\* a call that adds blocks warns if the low-frequency domain does not cover their width, and not otherwise
WideFail(e) ==
  LET wide == RLt(e.L2, e.c.dims[2]) IN
  If(\A q \in 1..Len(e.warned) : (e.warned[q][2] > 0) <=> (wide /\ e.warned[q][1] > 0), "WarnsIfWider")

MyFail(s, e) ==
  CASE e.a = "win" -> WinFail(e)
    [] e.a = "prof" -> ProfFail(e)
    [] e.a = "law" -> LawFail(e)
    [] e.a = "lf" -> LfFail(e)
    [] e.a = "wide" -> WideFail(e)
    [] OTHER -> {"UnknownEvent"}
=============================================================================
