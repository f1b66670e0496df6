------------------------------ MODULE RunLogMC -------------------------------
(* Two runs, evaluated in turn, some evaluations failing.                     *)
EXTENDS RunLog, FiniteSets
CONSTANTS Runs, Vals, Max
VARIABLES w, n, avg, log, step
vars == <<w, n, avg, log, step>>
Ws == {[a1 |-> "0", a2 |-> "0", b |-> "0", g |-> "0"], [a1 |-> "1", a2 |-> "0", b |-> "2", g |-> "1"], [a1 |-> "1", a2 |-> "1", b |-> "0", g |-> "1"]}
Init == /\ w \in [Runs -> Ws] /\ n = [r \in Runs |-> 0] /\ avg = [r \in Runs |-> NoAvg] /\ log = [r \in Runs |-> <<>>] /\ step = [r \in Runs |-> 0]
Ev(r, m, p, coh, th, inc) ==
  LET A == Active(w[r], coh, th)
      t == [x \in DOMAIN NoAvg |-> IF x = "mse" THEN m ELSE IF x \in A THEN p ELSE "0"]
      a == AvgStep(avg[r], n[r] = 0, t) IN
  /\ n[r] < Max
  /\ n' = [n EXCEPT ![r] = @ + 1] /\ avg' = [avg EXCEPT ![r] = a] /\ step' = [step EXCEPT ![r] = @ + inc]
  /\ log' = [log EXCEPT ![r] = @ \o Entries(w[r], step[r], t, coh, th, <<p, p, p>>, a)]
  /\ UNCHANGED w
Next == \E r \in Runs, m \in Vals, p \in Vals, coh \in BOOLEAN, th \in BOOLEAN, inc \in {0, 1} : Ev(r, m, p, coh, th, inc)
Spec == Init /\ [][Next]_vars

Count(r, tag) == Len(OfTag(log[r], tag))
OnePerEvaluation == \A r \in Runs : Count(r, "MSE Loss") = n[r]
OnlyActive == \A r \in Runs : /\ ~Positive(w[r].a1) => Count(r, "1st Order Penalty") = 0
                              /\ ~Positive(w[r].a2) => Count(r, "2nd Order Penalty") = 0
                              /\ ~Positive(w[r].b) => Count(r, "Regularization") = 0
                              /\ Positive(w[r].a1) => Count(r, "1st Order Penalty") = n[r]
                              /\ \A k \in 1..3 : Count(r, CompTags[k]) = Count(r, "Coherence Loss/Total")
SharesSumToOne == \A r \in Runs : \A k \in 1..Len(log[r]) : log[r][k].tag = ShareTags[4] =>
                      RClose(RSum([j \in 1..4 |-> log[r][k - 4 + j].val]), "1", "1e-12", "0") /\ log[r][k - 3].tag = ShareTags[1]
Shared == \A r \in Runs : \A k \in 1..Len(log[r]) : log[r][k].tag = "MSE Loss" /\ log[r][k].step = 0 => \A j \in 1..Len(log[r]) : log[r][j].step = 0 => log[r][j].tag \notin {ShareTags[q] : q \in 1..4}
Grows == [][\A r \in Runs : SubSeq(log'[r], 1, Len(log[r])) = log[r] /\ (log'[r] # log[r] => \A q \in Runs : q # r => log'[q] = log[q])]_vars
==============================================================================
