----------------------------- MODULE ProblemSim ------------------------------
(* Behaviours of Problem as scenarios for real problems.                     *)
EXTENDS Problem, Json
CONSTANTS Ops, Depth, Kinds, BadDirs
VARIABLES h, todo   \* the kind of the next call is drawn first, so that random behaviours use all kinds

SLen(a) == <<30, 10, 35, 3, 3, 5, 3>>[a]          \* lengths are those of the driver's architectures
SEt(a) == <<"TAUNET", "TAUNET", "TAUNET", "MANN", "MANN_APPROX", "CONST", "TWOTHIRD">>[a]
Do(o, rec) == o = todo /\ h' = Append(h, rec @@ [op |-> o]) /\ todo' = ""

SInit == Init /\ h = <<>> /\ todo = ""
Choose == todo = "" /\ Len(h) < Depth /\ todo' \in Ops /\ UNCHANGED <<vars, h>>
Drop == todo # "" /\ todo' = "" /\ UNCHANGED <<vars, h>>
SNext ==
  \/ Choose \/ Drop
  \/ \E p \in Probs, a \in Archs : New(p, a) /\ Do("new", [p |-> p, a |-> a])
  \/ \E p \in Probs, x \in Hands, k \in Kinds : Read(p, x) /\ Do("read", [p |-> p, h |-> x, k |-> k])
  \/ \E p \in Probs, x \in Hands : Write(p, x) /\ Do("write", [p |-> p, h |-> x])
  \/ \E p \in Probs, n \in {"short", "long", "empty", "one", "scales", "most", "twice", "head"} : Look(p) /\ Do("badlen", [p |-> p, n |-> n])
  \/ \E x \in Hands : Mutate(x) /\ Do("mutate", [h |-> x])
  \/ \E p \in Probs : Calibrate(p) /\ Do("calib", [p |-> p])
  \/ \E p \in Probs : Look(p) /\ Do("plot", [p |-> p])
  \/ \E p \in Probs : Edit(p) /\ Do("edit", [p |-> p])
  \/ \E p \in Probs, d \in Dirs, k \in {"str", "path", "default"} : Save(p, d) /\ Do("save", [p |-> p, d |-> d, k |-> k])
  \/ \E p \in Probs, b \in BadDirs : SaveRefused(p) /\ Do("badsave", [p |-> p, b |-> b])
  \/ \E p \in Probs, f \in Files : Load(p, f) /\ Do("load", [p |-> p, d |-> f[1], et |-> f[2]])
  \/ \E g \in Gens, f \in Files : file[f].live /\ file[f].arch \in {1, 2} /\ Build(g, f) /\ Do("gen", [g |-> g, d |-> f[1], et |-> f[2]])
\* generators are built from models with a network and the standard energy spectrum
SSpec == SInit /\ [][SNext]_<<vars, h, todo>>
Emit == (Len(h) = Depth) => PrintT(ToJson(h))
==============================================================================
