------------------------------ MODULE RunLogSim ------------------------------
(* Programs of evaluations of one or two runs; the kind of the next call is   *)
(* chosen before its arguments.                                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES h, todo, nrun
Wt == {"0", "0.5", "2.0", "1e-6"}
Do(rec) == h' = Append(h, rec) /\ todo' = "" /\ UNCHANGED nrun
SInit == h = <<>> /\ todo = "open" /\ nrun = 0
Next ==
  \/ todo = "" /\ Len(h) < Depth /\ todo' \in {"ev", "ev ", "ev  ", "ev   ", "ev    ", "fail", "read"} \cup (IF nrun < 3 THEN {"open"} ELSE {}) /\ UNCHANGED <<h, nrun>>
  \/ todo = "open" /\ nrun' = nrun + 1 /\ todo' = "" /\ \E a1 \in Wt, a2 \in Wt, b \in Wt, g \in Wt, d \in {"a", "a ", "b", "default"}, two \in BOOLEAN :
        h' = Append(h, [op |-> "open", w |-> [a1 |-> a1, a2 |-> a2, b |-> b, g |-> g], dir |-> d, f64 |-> two])
  \/ todo \in {"ev", "ev ", "ev  ", "ev   ", "ev    "} /\ \E r \in 1..nrun, mode \in {"next", "next ", "next  ", "same", "zero", "jump"}, coh \in BOOLEAN, th \in BOOLEAN, amp \in {"0", "0.01", "1.0", "3.0"} :
        Do([op |-> "ev", r |-> r, mode |-> mode, coh |-> coh, th |-> th, amp |-> amp])
  \/ todo = "fail" /\ \E r \in 1..nrun : Do([op |-> "fail", r |-> r])
  \/ todo = "read" /\ Do([op |-> "read"])
Spec == SInit /\ [][Next]_<<h, todo, nrun>>
Emit == (Len(h) = Depth) => PrintT(ToJson([ops |-> h]))
==============================================================================
