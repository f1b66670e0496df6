----------------------------- MODULE PlotsTrace ------------------------------
(* Recorded pictures (C28).  A plot event holds what the figures show and     *)
(* what the problem itself answers at that moment: ops (components by points  *)
(* of the model), tau (lifetimes at the plotted abscissae), coh (coherences). *)
EXTENDS PlotPanels, TraceKit

MySt0 == [data |-> FALSE, coh |-> FALSE, out |-> FALSE, slow |-> {}]
MyStep(s, e) ==
  CASE e.a = "new" -> [data |-> FALSE, coh |-> FALSE, out |-> e.b, slow |-> {}]
    [] e.a = "calib" /\ e.out = "ok" -> [s EXCEPT !.data = TRUE, !.coh = e.coh]
    [] e.a = "slow" /\ e.out = "ok" -> [s EXCEPT !.slow = @ \cup {e.g}]
    [] e.a = "direct" -> [s EXCEPT !.out = e.b]
    [] OTHER -> s

Num(a, b, tol) == a = b \/ RClose(a, b, tol, "1e-12")
Nums(s, t, tol) == Len(s) = Len(t) /\ \A n \in 1..Len(s) : Num(s[n], t[n], tol)
Set(s) == {s[n] : n \in 1..Len(s)}
At(ps, name) == ps[CHOOSE n \in 1..Len(ps) : ps[n].name = name]

SpectraFail(e) ==
  IF Len(e.panels) # 6 \/ {e.panels[n].name : n \in 1..Len(e.panels)} # Set(Names) THEN {"Panels"}
  ELSE LET P(n) == At(e.panels, Names[n]) IN
       If(\A n \in 1..6 : Nums(P(n).x, e.k, e.tol), "Abscissae")
       \cup If(\A n \in 1..6 : Nums(P(n).model, [q \in 1..Len(e.k) |-> Signed(n, Normed(e.ops[n][q], e.ustar))], e.tol), "ModelInItsPanel")
       \cup If(\A n \in 1..6 : IF n > e.nc THEN P(n).data = <<>>
                               ELSE Nums(P(n).data, [q \in 1..Len(e.k) |-> Signed(n, Normed(e.data[q][Entry[n][1]][Entry[n][2]], e.ustar))], e.tol) /\ P(n).dx = P(n).x, "DataInItsPanel")

\* taus: drawn lines [name, x, y]; vals: what the problem answers along each direction at the same abscissae
TauFail(e) ==
  IF {e.taus[n].name : n \in 1..Len(e.taus)} # Set(Along) \cup {"ref"} \/ Len(e.taus) # 5 THEN {"LifetimeLines"}
  ELSE LET T(a) == At(e.taus, a) IN
       If(\A n \in 1..4 : Nums(T(Along[n]).y, e.vals[n], e.tol), "LifetimesShown")
       \cup If(\A n \in 1..Len(e.dirs) : RCloseSeq(e.dirs[n], Direction[n], "1e-6", "1e-9"), "Machinery")
       \cup If(\A n \in 1..Len(T("ref").x) : RClose(T("ref").y[n], Reference(e.G, T("ref").x[n]), e.tol, "1e-12"), "ReferenceShown")
       \cup If(\A n \in 1..Len(T("ref").x) - 1 : RLt(T("ref").x[n], T("ref").x[n + 1]), "AbscissaeOrdered")

\* cells: 4 rows of separations, 3 columns of components; mod, dat: 3 x 4 x frequencies
CohFail(e) ==
  IF Len(e.cells) # 12 \/ \E n \in 1..Len(e.cells) : e.cells[n].col # <<"U", "V", "W">>[((n - 1) % 3) + 1] THEN {"CoherencePanels"}
  ELSE LET R(n) == ((n - 1) \div 3) + 1
           C(n) == ((n - 1) % 3) + 1
       IN If(\A n \in 1..12 : RLe(RAbs(RSub(e.cells[n].sep, e.seps[R(n)])), "0.0501"), "SeparationNamed")
          \cup If(\A n \in 1..12 : Nums(e.cells[n].x, e.freq, e.tol), "FrequencyAxis")
          \cup If(\A n \in 1..12 : Nums(e.cells[n].data, e.dat[C(n)][R(n)], e.tol), "CoherenceData")
          \cup If(\A n \in 1..12 : RCloseSeq(e.cells[n].model, e.mod[C(n)][R(n)], e.ctol, e.catol), "CoherenceOfTheModel")

CanDraw(s, e) == e.src = "given" \/ s.data
CanWrite(s, e) == e.save \in {"no", "here"} \/ s.out
PlotFail(s, e) ==
  If(e.p0 = e.p1, "ParametersUnchanged")
  \cup If(e.intact, "DataUnchanged")
  \cup (IF ~(CanDraw(s, e) /\ CanWrite(s, e))
        THEN If(e.out = "ValueError", "RefusesWithValueError") \cup If(e.written = <<>>, "RefusedWritesNothing")
        ELSE IF e.out # "ok" THEN {"Draws"}
        ELSE If(e.hasspectra, "SpectraShown")
             \cup If(e.hastau = e.tau, "LifetimeShownIfAsked")
             \cup If(e.hascoh = s.coh, "CoherenceShownIfLoaded")
             \cup If(Set(e.written) = FilesOf(e.base, e.tau, e.save) /\ e.png, "FilesWritten")
             \cup If(e.unlinked, "NothingElseWritten")
             \cup (IF e.hasspectra THEN SpectraFail(e) ELSE {})
             \cup (IF e.tau /\ e.hastau THEN TauFail(e) ELSE {})
             \cup (IF s.coh /\ e.hascoh THEN CohFail(e) ELSE {}))

\* shown: per term [tag, y]; logged: per term [tag, y] as the run logged them
Suffix(s, t) == LET d == Len(t) - Len(s) IN d \in 0..2 /\ \A n \in 1..Len(s) : Num(s[n], t[n + d], "1e-6")
LossesFail(e) ==
  IF e.out # "ok" THEN {"Draws"}
  ELSE IF {e.shown[n].tag : n \in 1..Len(e.shown)} # {e.logged[n].tag : n \in 1..Len(e.logged)} \/ Len(e.shown) # Len(e.logged) THEN {"EveryTermOnce"}
  ELSE If(\A n \in 1..Len(e.shown) : \E m \in 1..Len(e.logged) : e.logged[m].tag = e.shown[n].tag /\ Suffix(e.shown[n].y, e.logged[m].y), "TermsOfTheRun")

\* low-frequency fields: pixel [j][i] of a picture lies at x[i], y[j] (in kilometres) and shows the field there
Centre(lo, hi, n, q) == RAdd(lo, RMul(RDiv(RSub(hi, lo), n), RSub(q, "0.5")))
Kilo(x) == RDiv(x, "1000")
SlowFail(s, e) ==
  If(e.intact, "FieldUnchanged")
  \cup (IF e.g \notin s.slow THEN If(e.out = "RuntimeError" /\ e.images = <<>>, "NothingToShow")
        ELSE IF e.out # "ok" THEN {"Draws"}
        ELSE IF Len(e.images) # 2 \/ {e.images[n].name : n \in 1..Len(e.images)} # {"u", "v"} THEN {"Panels"}
        ELSE LET F(n) == IF n = "u" THEN e.u ELSE e.v
                 OK(n, im) == /\ Len(im.a) = Len(e.y) /\ \A j \in 1..Len(e.y) : Len(im.a[j]) = Len(e.x) /\ \A i \in 1..Len(e.x) : RClose(im.a[j][i], F(n)[i][j], "1e-6", "0")
                 Where(im) == /\ \A i \in 1..Len(e.x) : RClose(Centre(im.ext[1], im.ext[2], Len(e.x), i), Kilo(e.x[i]), "1e-9", "1e-9")
                              /\ \A j \in 1..Len(e.y) : RClose(Centre(im.ext[3], im.ext[4], Len(e.y), j), Kilo(e.y[j]), "1e-9", "1e-9")
                 Top == RMaxSeq([q \in 1..(2 * Len(e.x)) |-> IF q <= Len(e.x) THEN RMaxSeq([j \in 1..Len(e.y) |-> RAbs(e.u[q][j])]) ELSE RMaxSeq([j \in 1..Len(e.y) |-> RAbs(e.v[q - Len(e.x)][j])])])
             IN If(\A n \in 1..2 : OK(e.images[n].name, e.images[n]), "FieldShown")
                \cup If(\A n \in 1..2 : Where(e.images[n]), "WhereItIs")
                \cup If(\A n \in 1..2 : RClose(e.images[n].lim[1], RNeg(e.images[n].lim[2]), "1e-9", "0") /\ RLe(Top, RMul("1.000001", e.images[n].lim[2])), "ColoursSpanTheValues")
                \cup If(e.images[1].lim = e.images[2].lim, "ColoursShared"))

MyFail(s, e) ==
  CASE e.a = "plot" -> PlotFail(s, e)
    [] e.a = "losses" -> LossesFail(e)
    [] e.a = "slowplot" -> SlowFail(s, e)
    [] e.a \in {"new", "calib", "set", "direct", "slow"} -> If(e.out = "ok", "Evaluates")
    [] OTHER -> {"UnknownEvent"}
==============================================================================
