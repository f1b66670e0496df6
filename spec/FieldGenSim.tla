----------------------------- MODULE FieldGenSim -----------------------------
(* Behaviours of FieldGen as scenarios for the real generators: h is the    *)
(* list of calls made so far.  Ops selects the calls of a campaign.         *)
EXTENDS FieldGen, TLC, Json

CONSTANTS Ops, Depth, MaxTotal, BadKinds
VARIABLES h, todo   \* todo: the kind of the next call, drawn first in random behaviours, so that all kinds are used; "any": no such choice

SNx   == [c \in Configs |-> 2]
SExt  == [c \in Configs |-> 3]
STwoD == [c \in Configs |-> c % 2 = 0]

On(o) == o \in Ops
Do(o, rec) == /\ On(o) /\ todo \in {o, "any"} /\ Len(h) < Depth
              /\ h' = Append(h, rec) /\ todo' = IF todo = "any" THEN "any" ELSE ""

SInit == Init /\ h = <<>> /\ todo = "any"
KInit == Init /\ h = <<>> /\ todo = ""
Choose == todo = "" /\ Len(h) < Depth /\ todo' \in Ops /\ UNCHANGED <<vars, h>>
Drop == todo \notin {"", "any"} /\ todo' = "" /\ UNCHANGED <<vars, h>>
SNext ==
  \/ Choose \/ Drop
  \/ \E g \in Gens, c \in Configs, s \in Seeds \cup {NoSeed} :
       /\ ~gen[g].live /\ \A x \in Gens : x < g => gen[x].live
       /\ New(g, c, s) /\ Do("new", [op |-> "new", g |-> g, c |-> c, s |-> s])
  \/ \E g \in Gens, n \in 0..MaxN, p \in Profiles :
       /\ gen[g].live /\ Len(gen[g].blocks) + n <= MaxTotal
       /\ Generate(g, n, p) /\ Do("gen", [op |-> "gen", g |-> g, n |-> n, p |-> p])
  \/ \E g \in Gens, k \in BadKinds, n \in {1, 2} :
       Reject(g) /\ Do("rej", [op |-> "rej", g |-> g, k |-> k, n |-> n])
  \/ \E g \in Gens : Inspect(g) /\ Do("insp", [op |-> "insp", g |-> g])
  \/ GlobDraw /\ Do("draw", [op |-> "draw"])
  \/ \E s \in {1, 2} : GlobSeed(s) /\ Do("gseed", [op |-> "gseed", s |-> s])

SSpec == SInit /\ [][SNext]_<<vars, h, todo>>
KSpec == KInit /\ [][SNext]_<<vars, h, todo>>

Emit == (Len(h) = Depth) => PrintT(ToJson(h))
=============================================================================
