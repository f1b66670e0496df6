----------------------------- MODULE GridOpsMC -------------------------------
(* The central difference is exact for quadratic fields, and the divergence   *)
(* of a discrete curl vanishes in the interior.                               *)
EXTENDS GridOps, TLC
CONSTANTS Cs
Hs == {<<"1.0","1.0","1.0">>, <<"0.5","2.0","7.0">>}
VARIABLES a, b, c, h
Init == a \in Cs /\ b \in Cs /\ c \in Cs /\ h \in Hs
Next == UNCHANGED <<a, b, c, h>>
Spec == Init /\ [][Next]_<<a, b, c, h>>
N == 3
Fld(G(_)) == [i \in 1..N |-> [j \in 1..N |-> [k \in 1..N |-> G(GridAt(h, <<i, j, k>>))]]]
\* u = a x^2 + b y, v = b x y + c y^2, w = c z^2 + a z
U(x) == RAdd(RMul(a, RMul(x[1], x[1])), RMul(b, x[2]))
V(x) == RAdd(RMul(b, RMul(x[1], x[2])), RMul(c, RMul(x[2], x[2])))
W(x) == RAdd(RMul(c, RMul(x[3], x[3])), RMul(a, x[3]))
Exact == LET F == <<Fld(U), Fld(V), Fld(W)>> IN
         \A p \in Interior(F[1]) : LET x == GridAt(h, p) IN
           RClose(Div(F, h, p), RAdd(RAdd(RMul("2", RMul(a, x[1])), RAdd(RMul(b, x[1]), RMul("2", RMul(c, x[2])))), RAdd(RMul("2", RMul(c, x[3])), a)), "1e-9", "1e-9")
\* rotation about an axis has no divergence
RU(x) == RNeg(RMul(a, x[2]))
RV(x) == RMul(a, x[1])
RW(x) == RMul(b, x[1])
Solenoidal == LET F == <<Fld(RU), Fld(RV), Fld(RW)>> IN \A p \in Interior(F[1]) : RClose(Div(F, h, p), "0", "0", "1e-9")
==============================================================================
