---------------------------- MODULE GridOpsTrace -----------------------------
EXTENDS GridOps, TraceKit
MySt0 == 0
MyStep(s, e) == s
DivFail(e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE IF ~e.shape THEN {"Shape"}
  ELSE If(\A p \in Interior(e.div) : RClose(e.div[p[1]][p[2]][p[3]], Div(e.F, e.h, p), e.tol, e.atol), "CentralDifferences")
       \cup If(e.kind = "affine" => \A p \in Points(e.div) : RClose(e.div[p[1]][p[2]][p[3]], e.exact, e.tol, e.atol), "LinearFieldsExact")
       \cup If(e.intact, "InputUnchanged")
BadFail(e) == If(e.out = "ValueError", "Refused") \cup If(e.intact, "InputUnchanged")
GridFail(e) == IF e.out # "ok" THEN {"Evaluates"}
               ELSE IF ~e.shape THEN {"Shape"}
               ELSE If(\A p \in Points(e.X[1]) : LET w == GridAt(e.h, p) IN \A a \in 1..3 : RClose(e.X[a][p[1]][p[2]][p[3]], w[a], "1e-9", "0"), "GridPoints")
FormatFail(e) == IF e.out # "ok" THEN {"Evaluates"}
                 ELSE If(e.three /\ e.shape, "Shape")
                      \cup If(e.G = e.F, "Components")
                      \cup If(e.contig, "Contiguous")
                      \cup If(e.apart, "NoSharing")
                      \cup If(e.intact, "InputUnchanged")
\* a plotted volume: points and value per point, in one common order
PlotFail(e) == IF e.out # "ok" THEN {"Evaluates"}
               ELSE IF ~e.shape THEN {"Shape"}
               ELSE LET n1 == Len(e.F[1])  n2 == Len(e.F[1][1])  n3 == Len(e.F[1][1][1])
                        val(p) == IF e.c > 0 THEN e.F[e.c][p[1]][p[2]][p[3]]
                                  ELSE RSqrt(RAdd(RAdd(RMul(e.F[1][p[1]][p[2]][p[3]], e.F[1][p[1]][p[2]][p[3]]), RMul(e.F[2][p[1]][p[2]][p[3]], e.F[2][p[1]][p[2]][p[3]])), RMul(e.F[3][p[1]][p[2]][p[3]], e.F[3][p[1]][p[2]][p[3]])))
                        at(p) == {q \in 1..Len(e.xs) : LET w == GridAt(e.h, p) IN RClose(e.xs[q], w[1], "1e-6", "1e-12") /\ RClose(e.ys[q], w[2], "1e-6", "1e-12") /\ RClose(e.zs[q], w[3], "1e-6", "1e-12")}
                    IN If(Len(e.xs) = n1 * n2 * n3 /\ \A p \in Points(e.F[1]) : \E q \in at(p) : RClose(e.vs[q], val(p), "1e-5", "1e-12"), "PlottedField")
                       \cup If(e.intact, "InputUnchanged")
MyFail(s, e) ==
  CASE e.a = "div" -> DivFail(e)
    [] e.a = "bad" -> BadFail(e)
    [] e.a = "grid" -> GridFail(e)
    [] e.a = "format" -> FormatFail(e)
    [] e.a = "plot" -> PlotFail(e)
    [] OTHER -> {"UnknownEvent"}
==============================================================================
