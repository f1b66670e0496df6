------------------------------ MODULE PlotsSim -------------------------------
(* Histories of changes and plots for a real problem; the kind of the next    *)
(* call is chosen before its arguments.                                       *)
EXTENDS Plots, TLC, Json
CONSTANTS Depth, Archs
VARIABLES h, arch, nc, out0, todo
Do(o, rec) == h' = Append(h, rec @@ [op |-> o]) /\ todo' = ""
Same == UNCHANGED pvars
SInit == Init /\ h = <<>> /\ arch \in Archs /\ nc \in {3, 4, 6} /\ todo = "" /\ out0 = out
SNext ==
  /\ UNCHANGED <<arch, nc, out0>>
  /\ \/ todo = "" /\ Len(h) < Depth /\ todo' \in {"set", "calib", "direct", "plot", "plot ", "plot  ", "bad"} /\ UNCHANGED h /\ Same
     \/ todo = "set" /\ Do("set", [x |-> 0]) /\ Set
     \/ todo = "calib" /\ \E d \in Data, c \in BOOLEAN : Do("calib", [d |-> d, c |-> c]) /\ Calibrate(d, IF c THEN d ELSE 0)
     \/ todo = "direct" /\ \E b \in BOOLEAN : Do("direct", [b |-> b]) /\ Direct(b)
     \/ todo \in {"plot", "plot ", "plot  "} /\ \E src \in {"own", "given"}, d \in Data, tau \in BOOLEAN, save \in {"no", "here", "default"}, b \in Bases, m \in BOOLEAN :
             /\ (src = "own" => d = 1) /\ (save = "no" => b = 1)
             /\ Plot(src, d, tau, save, b) /\ Do("plot", [src |-> src, d |-> d, tau |-> tau, save |-> save, b |-> b, model |-> m])
     \/ todo = "bad" /\ \E src \in {"own", "given"}, tau \in BOOLEAN, save \in {"no", "here", "default"} :
             /\ ~(CanDraw(src) /\ CanWrite(save)) /\ Same
             /\ Do("plot", [src |-> src, d |-> 1, tau |-> tau, save |-> save, b |-> 1, model |-> FALSE])
     \/ todo \in {"set", "calib"} /\ v >= MaxV /\ todo' = "" /\ UNCHANGED h /\ Same
     \/ todo = "bad" /\ out /\ data # 0 /\ todo' = "" /\ UNCHANGED h /\ Same
SSpec == SInit /\ [][SNext]_<<pvars, h, arch, nc, out0, todo>>
Emit == (Len(h) = Depth) => PrintT(ToJson([arch |-> arch, nc |-> nc, out |-> out0, ops |-> h]))
==============================================================================
