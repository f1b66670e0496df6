------------------------------ MODULE ExportSim ------------------------------
EXTENDS Export, TLC, Json
CONSTANTS Depth
VARIABLE h
Do(o, rec) == Len(h) < Depth /\ h' = Append(h, rec @@ [op |-> o])
SInit == Init /\ h = <<>>
SNext == \/ \E g \in Gens, n \in 1..2, f \in {"normed", "default"} : Generate(g, n) /\ Do("gen", [g |-> g, n |-> n, how |-> f])
         \/ \E g \in Gens, p \in Paths, k \in {"str", "path"} : Save(g, p) /\ Do("save", [g |-> g, p |-> p, kind |-> k])
SSpec == SInit /\ [][SNext]_<<xvars, h>>
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
==============================================================================
