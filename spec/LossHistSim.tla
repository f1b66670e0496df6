----------------------------- MODULE LossHistSim -----------------------------
EXTENDS Pick
MyFields == <<
  <<"terms", {"mse", "all", "all ", "pens", "coh", "reg"}>>,
  <<"prog", {"fall", "flat", "rise", "noise", "spike", "slow", "jump", "zero", "late", "gap"}>>,
  <<"amp", {"1e-5", "0.02", "0.5", "4.0"}>>,
  <<"len", {1, 2, 5, 9, 14, 53, 260, 1100}>>,
  <<"spoil", {"no", "yes"}>> >>
\* long histories are dear: few, all of them with every term on
MyDerive(c) == IF c.len # 1100 THEN c
               ELSE IF c.prog \in {"noise", "slow", "gap"} THEN [c EXCEPT !.terms = "all", !.amp = IF c.amp = "4.0" THEN "0.5" ELSE "0.02"]
               ELSE [c EXCEPT !.len = 3]
==============================================================================
