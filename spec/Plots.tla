------------------------------- MODULE Plots ---------------------------------
(* Pictures of a problem (C28).  A problem has parameters (version v), the    *)
(* data of its last calibration (data, 0: none), the coherences loaded with   *)
(* them (coh, 0: none) and perhaps an output directory (out).  Calibration    *)
(* leaves the coherence of the model it started from behind (cached).  A plot *)
(* draws figures (figs: what each of them shows) and may write them (files).  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Data, MaxV, Bases
VARIABLES v, data, coh, out, cached, figs, files
pvars == <<v, data, coh, out, cached, figs, files>>

Figures == {"spectra", "tau", "coherence"}
Nothing == <<>>

Init == v = 0 /\ data = 0 /\ coh = 0 /\ out \in BOOLEAN /\ cached = 0
        /\ figs = [f \in Figures |-> Nothing] /\ files = [x \in Bases \X Figures |-> Nothing]

Set == v < MaxV /\ v' = v + 1 /\ UNCHANGED <<data, coh, out, cached, figs, files>>
Calibrate(d, c) == v < MaxV /\ v' = v + 1 /\ data' = d /\ coh' = c /\ cached' = (IF c # 0 THEN v ELSE cached) /\ UNCHANGED <<out, figs, files>>
Direct(b) == out' = b /\ UNCHANGED <<v, data, coh, cached, figs, files>>

\* a plot needs something to compare with, and somewhere to write if it has to write
CanDraw(src) == src = "given" \/ data # 0
CanWrite(save) == save \in {"no", "here"} \/ out
Drawn(tau) == {"spectra"} \cup (IF tau THEN {"tau"} ELSE {}) \cup (IF coh # 0 THEN {"coherence"} ELSE {})
Written(tau, save) == IF save = "no" THEN {} ELSE {"spectra"} \cup (IF tau THEN {"tau"} ELSE {})
Plot(src, d, tau, save, b) ==
  /\ CanDraw(src) /\ CanWrite(save)
  \* the coherence is computed anew before it is drawn
  /\ cached' = IF coh # 0 THEN v ELSE cached
  /\ figs' = [f \in Figures |-> IF f \notin Drawn(tau) THEN figs[f]
                                ELSE IF f = "spectra" THEN <<v, IF src = "given" THEN d ELSE data>>
                                ELSE IF f = "tau" THEN <<v>> ELSE <<cached', coh>>]
  /\ files' = [x \in Bases \X Figures |-> IF x[1] = b /\ x[2] \in Written(tau, save) THEN figs'[x[2]] ELSE files[x]]
  /\ UNCHANGED <<v, data, coh, out>>

Next == Set \/ (\E d \in Data, c \in {0} \cup Data : Calibrate(d, c)) \/ (\E b \in BOOLEAN : Direct(b))
        \/ \E src \in {"own", "given"}, d \in Data, tau \in BOOLEAN, save \in {"no", "here", "default"}, b \in Bases : Plot(src, d, tau, save, b)
Spec == Init /\ [][Next]_pvars

APlot == \E src \in {"own", "given"}, d \in Data, tau \in BOOLEAN, save \in {"no", "here", "default"}, b \in Bases : Plot(src, d, tau, save, b)
(* the property *)
ShowsNow == [][\A f \in Figures : figs'[f] # figs[f] => figs'[f][1] = v /\ v' = v]_pvars
OnlyPlotsDraw == [][figs' # figs \/ files' # files => APlot]_pvars
LookingChangesNothing == [][figs' # figs \/ files' # files => UNCHANGED <<v, data, coh, out>>]_pvars
NothingFromNothing == figs["coherence"] # Nothing => figs["coherence"][2] # 0
FilesWereShown == \A x \in Bases \X Figures : files[x] # Nothing => files[x][1] <= v
==============================================================================
