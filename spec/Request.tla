------------------------------ MODULE Request -------------------------------
(* A request for n blocks under a mean profile (C05): which are admissible.  *)
EXTENDS Real64
Positive(x) == RLt("0", x)
Admissible(q) == \/ q.n = 0
                 \/ /\ q.type \in {"LOG", "PL"}
                    /\ Positive(q.zref) /\ Positive(q.uref) /\ Positive(q.z0)
                    /\ (q.type = "PL" => q.exp # "none")
==============================================================================
