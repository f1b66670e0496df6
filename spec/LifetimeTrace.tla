---------------------------- MODULE LifetimeTrace ----------------------------
(* Recorded eddy lifetimes (C21).  m as in Lifetime, k and b: wavevectors    *)
(* and the values returned, flips: the values with signs flipped.            *)
EXTENDS Lifetime, TraceKit
MySt0 == <<RegSlope, RegIcpt>>
MyStep(s, e) == s
Mod(s, e) == e.m @@ [slope |-> s[1], icpt |-> s[2]]
TauFail(s, e) ==
  IF e.out # "ok" THEN {"Evaluates"}
  ELSE IF Len(e.b) # Len(e.k) \/ ~e.shape THEN {"Shape"}
  ELSE If(\A n \in 1..Len(e.k) : RLt(0, e.b[n]) /\ RFinite(e.b[n]), "PositiveFinite")
       \cup If(\A n \in 1..Len(e.k) : RClose(e.b[n], IF e.direct THEN NetTau(e.m, e.k[n]) ELSE Beta(Mod(s, e), e.k[n]), e.tol, "0"), "Formula")
       \cup If(RCloseSeq(e.flips, e.b, e.tol, "0"), "SignFree")
       \cup If(e.intact, "InputIntact")
\* the lifetime functions by themselves, x: kL (Mann, approx) or a (rational)
FunFail(e) ==
  IF e.out # "ok" \/ Len(e.y) # Len(e.x) THEN {"Evaluates"}
  ELSE LET f(x) == CASE e.name = "mann" -> MannTau(x) [] e.name = "approx" -> RExp(RAdd(RMul(e.p, RLn(x)), e.q)) [] e.name = "rational" -> Rat(x, e.p) IN
       If(\A n \in 1..Len(e.x) : RClose(e.y[n], f(e.x[n]), e.tol, "0"), "Formula") \cup If(e.intact, "InputIntact")
MyFail(s, e) == CASE e.a = "tau" -> TauFail(s, e) [] e.a = "fun" -> FunFail(e) [] OTHER -> {"UnknownEvent"}
==============================================================================
