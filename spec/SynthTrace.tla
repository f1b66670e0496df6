----------------------------- MODULE SynthTrace ------------------------------
EXTENDS Synth, TraceKit
MySt0 == 0
MyStep(s, e) == s
Want(e, n) == IF e.fn = "vk" THEN VonKarman(e.k1[n], e.a_, e.b_) ELSE Kaimal(e.k1[n], e.a_, e.b_)
MyFail(s, e) ==
  IF e.out # "ok" THEN {"Generates"}
  ELSE IF ~e.shape \/ Len(e.ops) # Len(e.k1) THEN {"Shape"}
  ELSE If(\A n \in 1..Len(e.k1) : LET w == Want(e, n) IN \A m \in 1..9 : RClose(e.ops[n][m], w[m], e.tol, "0"), "Formula")
       \cup If(e.rk1 = e.k1, "Wavenumbers")
       \cup If(e.fn = "vk" => \A n \in 1..Len(e.k1) : e.ops[n][5] = e.ops[n][9], "VWEqual")
       \cup If(e.intact, "InputUnchanged")
       \cup If(e.coh, "NoCoherence")
       \cup If(\A n \in 1..Len(e.sub) : RCloseSeq(e.sub[n], e.ops[e.subi[n]], e.tol, "0"), "Pointwise")
==============================================================================
