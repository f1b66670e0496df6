---------------------------- MODULE ScheduleTrace ----------------------------
(* Rates of real optimizers under the offered schedules (C30).                *)
EXTENDS Schedule, TraceKit

MySt0 == [kind |-> "", E |-> 1, ops |-> <<>>, coh |-> <<>>, t |-> 0, lr |-> <<>>]
MyStep(s, e) ==
  CASE e.a = "start" -> [kind |-> e.kind, E |-> e.E, ops |-> e.ops, coh |-> e.coh, t |-> 0, lr |-> e.lr]
    [] e.a = "epoch" -> [s EXCEPT !.t = @ + 1, !.ops = @ \o e.ops, !.coh = @ \o e.coh]
    [] OTHER -> s
Factor(s) == IF s.kind = "phases" THEN Phases(s.E, s.t) ELSE Adaptive(s.ops, s.coh, Len(s.ops), s.t)
Undecided(s) == s.kind = "adaptive" /\ OnEdge(s.ops, s.coh, Len(s.ops))
Rates(s, e) == If(e.out = "ok", "Evaluates")
               \cup (IF e.out # "ok" \/ Undecided(s) THEN {} ELSE If(\A n \in 1..Len(s.lr) : RClose(e.rates[n], RMul(s.lr[n], Factor(s)), "1e-9", "0"), "Rate"))
               \cup If(e.kept, "NothingElseChanged")
MyFail(s, e) == IF e.a \in {"start", "epoch"} THEN Rates(MyStep(s, e), e) ELSE {"UnknownEvent"}
==============================================================================
