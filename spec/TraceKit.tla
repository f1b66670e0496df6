------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation with total verdicts.  A trace is a file of JSON lines; *)
(* every line is one event of the real program.  Step gives the state of   *)
(* the specification after the event, Fail the names of the clauses of the *)
(* specification the event violates (empty: the event is allowed).  The    *)
(* verdict lists every violating line, so that one rejection does not hide *)
(* the rest of the trace.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS St0, Step(_, _), Fail(_, _)

VARIABLES l, st, bad

Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == l = 1 /\ st = St0 /\ bad = <<>>

TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
            IF e.a = "reset" THEN st' = St0 /\ bad' = bad /\ l' = l + 1
            ELSE LET f == Fail(st, e) IN
                 /\ l' = l + 1
                 /\ bad' = IF f = {} \/ Len(bad) >= 40 THEN bad
                           ELSE Append(bad, [line |-> l, clauses |-> f])
                 /\ st' = Step(st, e)

TSpec == TInit /\ [][TNext]_<<l, st, bad>>

Report == l = Len(Trace) + 1 =>
            JsonSerialize(IOEnv.VERDICT, [events |-> Len(Trace), bad |-> bad])

Has(r, f) == f \in DOMAIN r
If(c, s) == IF c THEN {} ELSE {s}
=============================================================================
