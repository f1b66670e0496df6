------------------------------ MODULE EvalsSim -------------------------------
(* Histories of evaluations as scenarios for a real model.  Picks: sequences *)
(* of indices into the driver's pool of points (repetitions and all orders). *)
(* The kind of the next call is chosen first (todo), then its arguments, so  *)
(* that random behaviours use all kinds equally.                             *)
EXTENDS Evals, TLC, Json
CONSTANTS Depth, Archs, Kinds
VARIABLES h, arch, todo
Picks == {<<1>>, <<2>>, <<5>>, <<1, 3, 2>>, <<1, 2, 5>>, <<1, 4, 5, 6>>, <<1, 6>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<6, 6>>, <<1, 2, 3>>, <<3, 2, 1>>, <<4, 4, 1>>, <<2, 5, 3, 6>>, <<6, 5, 4, 3, 2, 1>>, <<1, 2, 3, 4, 5, 6>>, <<4>>}
Do(o, rec) == h' = Append(h, rec @@ [op |-> o]) /\ todo' = ""
SInit == Init /\ h = <<>> /\ arch \in Archs /\ todo = ""
Same == UNCHANGED evars
SNext ==
  /\ UNCHANGED arch
  /\ \/ todo = "" /\ Len(h) < Depth /\ todo' \in {"ops", "ops ", "ops  ", "tau", "coh"} \cup Kinds /\ UNCHANGED h /\ Same
     \/ todo \in {"ops", "ops ", "ops  "} /\ \E s \in Picks, how \in {"eval", "call", "callgrad"}, m \in BOOLEAN : Do("ops", [s |-> s, how |-> how, mine |-> m]) /\ Same
     \/ todo = "tau" /\ \E s \in Picks, how \in {"flat", "block"}, m \in BOOLEAN : Do("tau", [s |-> s, how |-> how, mine |-> m]) /\ Same
     \/ todo = "coh" /\ \E s \in Picks, r \in Picks, m \in BOOLEAN : Len(s) * Len(r) <= 12 /\ Do("coh", [s |-> s, r |-> r, how |-> "call", mine |-> m]) /\ Same
     \/ todo \in Kinds /\ Do(todo, [x |-> 0]) /\ Same
SSpec == SInit /\ [][SNext]_<<evars, h, arch, todo>>
Emit == (Len(h) = Depth) => PrintT(ToJson([arch |-> arch, ops |-> h]))
==============================================================================
