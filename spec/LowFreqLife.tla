---------------------------- MODULE LowFreqLife -----------------------------
(* Life cycle of low-frequency generators: no field, then the n-th field.   *)
(* Queries name the field they answer for; Emit prints histories of calls.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Gens, Depth
VARIABLES field, ans, h
NoField == 0
Refused == "RuntimeError"
Init == field = [g \in Gens |-> NoField] /\ ans = <<>> /\ h = <<>>
Log(o, g) == Len(h) < Depth /\ h' = Append(h, [op |-> o, g |-> g])
Generate(g) == field' = [field EXCEPT ![g] = @ + 1] /\ ans' = <<g, field[g] + 1>> /\ Log("gen", g)
Query(o, g) == UNCHANGED field /\ ans' = (IF field[g] = NoField THEN <<g, Refused>> ELSE <<g, field[g]>>) /\ Log(o, g)
Analytic(g) == UNCHANGED field /\ ans' = <<g, "any">> /\ Log("ana", g)
Next == \E g \in Gens : Generate(g) \/ Query("interp", g) \/ Query("spec", g) \/ Analytic(g)
Spec == Init /\ [][Next]_<<field, ans, h>>
\* a query never answers for an older field or for another generator's
Current == h # <<>> /\ h[Len(h)].op \in {"interp", "spec"} =>
             ans[2] = (IF field[h[Len(h)].g] = NoField THEN Refused ELSE field[h[Len(h)].g])
Grows == [][\A g \in Gens : field'[g] >= field[g]]_field
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
=============================================================================
