----------------------------- MODULE EvalsTrace ------------------------------
(* Recorded histories of evaluations (C19).  par: identity of the parameter   *)
(* vector before (p0) and after (p1) the event; pts: keys of the points; vals *)
(* their values; ref: values of the same points from a twin that never        *)
(* evaluated anything else; inputs, earlier: nothing handed in or out before  *)
(* has changed.                                                               *)
EXTENDS Integers, Sequences, Real64, TraceKit

MySt0 == [par |-> "", memo |-> [x \in {} |-> <<>>]]
Key(e, n) == <<e.kind, e.p0, e.pts[n]>>
RECURSIVE AddAll(_, _, _)
AddAll(m, e, n) == IF n > Len(e.pts) THEN m
                   ELSE AddAll(IF Key(e, n) \in DOMAIN m THEN m ELSE m @@ (Key(e, n) :> e.vals[n]), e, n + 1)
Changes(e) == e.a \in {"calib", "set", "new"}
MyStep(s, e) == [par |-> e.p1, memo |-> IF e.a = "eval" /\ e.out = "ok" /\ Len(e.vals) = Len(e.pts) THEN AddAll(s.memo, e, 1) ELSE s.memo]

Agree(a, b, tol, atol) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : RClose(a[n], b[n], tol, atol)
MyFail(s, e) ==
  If(e.out = "ok", "Evaluates")
  \cup If(e.a = "new" \/ e.p0 = s.par, "ParametersBetween")
  \cup If(Changes(e) \/ e.p1 = e.p0, "ParametersUnchanged")
  \cup If(e.inputs, "InputsUnchanged")
  \cup If(e.earlier, "EarlierResultsUnchanged")
  \cup (IF e.a # "eval" \/ e.out # "ok" THEN {}
        ELSE IF Len(e.vals) # Len(e.pts) THEN {"Shape"}
        ELSE LET m == AddAll(s.memo, e, 1) IN
             If(\A n \in 1..Len(e.pts) : Agree(e.vals[n], m[Key(e, n)], e.tol, e.atol[n]), "Pointwise")
             \cup If(\A n \in 1..Len(e.pts) : Agree(e.vals[n], e.ref[n], e.tol, e.atol[n]), "HistoryFree"))
==============================================================================
