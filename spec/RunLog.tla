------------------------------- MODULE RunLog --------------------------------
(* What a run writes into its log (C29).  A run has weights w; an evaluation  *)
(* at step n with terms t appends one entry [tag, step, val] per active term, *)
(* and from step 1 on the share of each term in the running averages.         *)
EXTENDS Loss

\* coh: the evaluation was given coherences, th: and parameters of a network
Active(w, coh, th) ==
  {"mse"} \cup (IF Positive(w.a1) THEN {"pen1"} ELSE {}) \cup (IF Positive(w.a2) THEN {"pen2"} ELSE {})
  \cup (IF Positive(w.b) /\ th THEN {"regularization"} ELSE {}) \cup (IF Positive(w.g) /\ coh THEN {"coherence"} ELSE {})
TagOf(n) == CASE n = "mse" -> "MSE Loss" [] n = "pen1" -> "1st Order Penalty" [] n = "pen2" -> "2nd Order Penalty"
              [] n = "regularization" -> "Regularization" [] n = "coherence" -> "Coherence Loss/Total"
CompTags == <<"Coherence Loss/U-component", "Coherence Loss/V-component", "Coherence Loss/W-component">>
ShareTags == <<"Component_Ratios/MSE", "Component_Ratios/Coherence", "Component_Ratios/Penalties", "Component_Ratios/Regularization">>
Tags == {TagOf(Names[n]) : n \in 1..5} \cup {CompTags[n] : n \in 1..3} \cup {ShareTags[n] : n \in 1..4}
TagSeq == <<"MSE Loss", "1st Order Penalty", "2nd Order Penalty", "Regularization", "Coherence Loss/Total">> \o CompTags \o ShareTags

AvgSum(avg) == RSum([n \in 1..5 |-> avg[Names[n]]])
Shares(avg) == LET s == AvgSum(avg) IN
  <<RDiv(avg["mse"], s), RDiv(avg["coherence"], s), RDiv(RAdd(avg["pen1"], avg["pen2"]), s), RDiv(avg["regularization"], s)>>

AvgStep(avg, first, t) == [n \in DOMAIN avg |-> EmaStep(avg[n], first, t[n])]
NoAvg == [n \in {Names[q] : q \in 1..5} |-> "0"]

\* entries of one evaluation; comp: misfits of the three components (used if coherence is active)
Entry1(tag, step, val) == [tag |-> tag, step |-> step, val |-> val]
RECURSIVE SeqOf(_, _)
SeqOf(keep, s) == IF s = <<>> THEN <<>> ELSE (IF keep[1] THEN <<s[1]>> ELSE <<>>) \o SeqOf(Tail(keep), Tail(s))
Entries(w, step, t, coh, th, comp, avg) ==
  LET A == Active(w, coh, th)
      sh == IF step > 0 /\ RLt(0, AvgSum(avg)) THEN Shares(avg) ELSE <<>>
      terms == [n \in 1..5 |-> Entry1(TagOf(Names[n]), step, t[Names[n]])] IN
  SeqOf([n \in 1..5 |-> Names[n] \in A], terms)
  \o (IF "coherence" \in A THEN [n \in 1..3 |-> Entry1(CompTags[n], step, comp[n])] ELSE <<>>)
  \o [n \in 1..Len(sh) |-> Entry1(ShareTags[n], step, sh[n])]

OfTag(log, tag) == SelectSeq(log, LAMBDA x : x.tag = tag)
==============================================================================
