---------------------------- MODULE LowFreqTrace ----------------------------
EXTENDS LowFreq, TraceKit

\* one record per generator: request, current tables, variance constant.  Queries are judged
\* against the field of the last "gen"
MySt0 == <<>>
MyStep(s, e) ==
  CASE e.a = "new" -> Append(s, [c |-> e.c, u |-> <<>>, cst |-> Cst(e.c)])
    [] e.a = "gen" -> IF e.out = "ok" THEN [s EXCEPT ![e.g].u = <<e.u1, e.u2>>] ELSE s
    [] OTHER -> s

(***** C09 ****************************************************************)
GridFail(e) ==
  LET c == e.c d == Fine(c) IN
  If(e.out = "ok", "Builds")
  \cup (IF e.out # "ok" THEN {} ELSE
    If(RClose(e.d1, d, "1e-9", "0") /\ RClose(e.d2, d, "1e-9", "0"), "FinerSpacing")
    \cup If(SizeOK(e.n1, Target1(c), d) /\ SizeOK(e.n2, Target2(c), d), "InternalSize")
    \cup If(RClose(e.l1, RMul(d, e.n1), "1e-9", "0") /\ RClose(e.l2, RMul(d, e.n2), "1e-9", "0"), "InternalExtent")
    \cup If(RLe(RMul(Target1(c), "0.999999999"), e.l1) /\ RLe(RMul(Target2(c), "0.999999999"), e.l2), "ContainsRequest")
    \cup If(Len(e.x) = Pts1(c) /\ Len(e.y) = Pts2(c)
            /\ \A i \in 1..Len(e.x) : RClose(e.x[i], RMul(i - 1, RDiv(Ext1(c), Pts1(c))), "1e-9", "1e-12")
            /\ \A q \in 1..Len(e.y) : RClose(e.y[q], RMul(q - 1, RDiv(Ext2(c), Pts2(c))), "1e-9", "1e-12"), "RequestedGrid")
    \cup If(e.warned = Small(c), "WarnsExactlyWhenSmall")
    \cup If(e.cfgsame, "ConfigUntouched"))

(***** C10 ****************************************************************)
FieldFail(e) ==
  If(e.out = "ok", "Generates")
  \cup (IF e.out # "ok" THEN {} ELSE
    If(e.finite, "RealAndFinite")
    \cup If(e.shape = <<Pts1(e.c), Pts2(e.c)>>, "RequestedShape")
    \cup If(RLe(RAbs(e.mean1), RMul(e.std, "1e-8")) /\ RLe(RAbs(e.mean2), RMul(e.std, "1e-8")), "ZeroMean")
    \cup If(LET o == <<(e.n1 - Pts1(e.c)) \div 2, (e.n2 - Pts2(e.c)) \div 2>>
          IN (e.zero1 \/ \E q \in 1..Len(e.off1) : e.off1[q] = o) /\ (e.zero2 \/ \E q \in 1..Len(e.off2) : e.off2[q] = o), "CentralPart")
    \cup If(e.returned, "ReturnedIsStored")
    \cup If(e.fresh, "NewNoiseEachTime"))

\* one mode: n, u1, u2 complex pairs
ModeFail(s, e) ==
  LET f == Filter(s[e.g].c, s[e.g].cst, e.k1, e.k2, e.d)
      q1 == RMul(f, e.k2) q2 == RNeg(RMul(f, e.k1))
      tol == RMul(e.sc, "1e-8")
  IN If(/\ RClose(e.u1[1], RNeg(RMul(q1, e.n[2])), "2e-5", tol) /\ RClose(e.u1[2], RMul(q1, e.n[1]), "2e-5", tol)
        /\ RClose(e.u2[1], RNeg(RMul(q2, e.n[2])), "2e-5", tol) /\ RClose(e.u2[2], RMul(q2, e.n[1]), "2e-5", tol), "FilteredNoise")
     \cup If(\A p \in 1..2 : RLe(RAbs(RAdd(RMul(e.k1, e.u1[p]), RMul(e.k2, e.u2[p]))),
                RMul(RMul(RAdd(RAbs(e.k1), RAbs(e.k2)), e.sc), "1e-9")), "DivergenceFree")

(***** C11 ****************************************************************)
InterpFail(s, e) ==
  LET g == s[e.g] IN
  IF g.u = <<>> THEN If(e.out = "RuntimeError", "RefusedBeforeGeneration")
  ELSE IF e.out # "ok" THEN {"AnswersAfterGeneration"}
  ELSE LET hx == RDiv(Ext1(g.c), Pts1(g.c)) hy == RDiv(Ext2(g.c), Pts2(g.c))
           n == Pts1(g.c) m == Pts2(g.c)
           Edge(x, y) == NearEdge(x, n, hx) \/ NearEdge(y, m, hy)
           Good(v, t) == /\ Len(v) = Len(e.x)
                         /\ \A i \in 1..Len(e.x) : Len(v[i]) = Len(e.y) /\
                              \A j \in 1..Len(e.y) : (Edge(e.x[i], e.y[j]) /\ ~e.nodes)
                                  \/ RClose(v[i][j], Interp(t, e.x[i], e.y[j], hx, hy), "1e-8", RMul(e.sc, "1e-8"))
       IN If(Good(e.v1, g.u[1]) /\ Good(e.v2, g.u[2]), "InterpolatesCurrentField")

\* interpolation at nodes i, j (1-based): the stored values
NodesFail(s, e) ==
  LET g == s[e.g] IN
  IF g.u = <<>> \/ e.out # "ok" THEN {}
  ELSE If(\A a \in 1..Len(e.i), b \in 1..Len(e.j) :
            /\ RClose(e.v1[a][b], g.u[1][e.i[a]][e.j[b]], "1e-9", RMul(e.sc, "1e-9"))
            /\ RClose(e.v2[a][b], g.u[2][e.i[a]][e.j[b]], "1e-9", RMul(e.sc, "1e-9")), "NodesExact")

SpecFail(s, e) ==
  LET g == s[e.g] IN
  IF g.u = <<>> THEN If(e.out = "RuntimeError", "RefusedBeforeGeneration")
  ELSE IF e.out # "ok" THEN {"AnswersAfterGeneration"}
  ELSE LET n == Pts1(g.c) m == Pts2(g.c)
           f == RDiv(Ext1(g.c), RMul(LfSq(n * m), RMul(2, RPi)))
           sc == RMaxSeq(e.f1 \o e.f2 \o <<"1e-300">>)
       IN If(/\ Len(e.k) = n \div 2 /\ Len(e.f1) = n \div 2 /\ Len(e.f2) = n \div 2
             /\ \A q \in 1..Len(e.k) : RClose(e.k[q], RDiv(RMul(RMul(2, RPi), q), Ext1(g.c)), "1e-9", "0"), "PositiveWavenumbers")
          \cup If(\A q \in 1..Len(e.k) : q < n \div 2 =>
                    /\ RClose(e.f1[q], RMul(f, Power(g.u[1], q)), "1e-7", RMul(sc, "1e-10"))
                    /\ RClose(e.f2[q], RMul(f, Power(g.u[2], q)), "1e-7", RMul(sc, "1e-10")), "SummedPower")

AnaFail(s, e) ==
  LET g == s[e.g] IN
  If(e.out = "ok", "AnalyticalAlways")
  \cup (IF e.out # "ok" THEN {} ELSE
    If(Len(e.f1) = Len(e.k) /\ Len(e.f2) = Len(e.k)
       /\ \A q \in 1..Len(e.k) :
            IF RLt(RAbs(e.k[q]), "1e-15") THEN RLe(RAbs(e.f1[q]), "0") /\ RLe(RAbs(e.f2[q]), "0")
            ELSE /\ RClose(e.f1[q], Spec1D(g.c, g.cst, e.k[q], e.lim, 1), "2e-4", "1e-9")
                 /\ RClose(e.f2[q], Spec1D(g.c, g.cst, e.k[q], e.lim, 2), "2e-4", "1e-9"), "DocumentedIntegral")
    \cup If(e.even, "SymmetricInK1"))

NewFail(e) == If(e.out = "ok", "Builds")

MyFail(s, e) ==
  CASE e.a = "grid" -> GridFail(e)
    [] e.a = "field" -> FieldFail(e)
    [] e.a = "mode" -> ModeFail(s, e)
    [] e.a = "new" -> NewFail(e)
    [] e.a = "gen" -> If(e.out = "ok", "Generates")
    [] e.a = "interp" -> InterpFail(s, e)
    [] e.a = "nodes" -> NodesFail(s, e)
    [] e.a = "spec" -> SpecFail(s, e)
    [] e.a = "ana" -> AnaFail(s, e)
    [] OTHER -> {"UnknownEvent"}
=============================================================================
