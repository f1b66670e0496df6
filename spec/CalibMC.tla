------------------------------- MODULE CalibMC -------------------------------
EXTENDS Calib, TLC
CONSTANTS Max, Tol, Vals
VARIABLES epoch, hist, status
vars == <<epoch, hist, status>>
Init == epoch = 0 /\ hist = <<>> /\ status = "running"
Epoch == /\ status = "running" /\ epoch < Max
         /\ \E v \in Vals : /\ hist' = Append(hist, v)
                            /\ epoch' = epoch + 1
                            /\ status' = IF ~RFinite(v) THEN "error" ELSE IF RLt(v, Tol) \/ epoch + 1 = Max THEN "done" ELSE "running"
Spec == Init /\ [][Epoch]_vars /\ WF_vars(Epoch)
AtMost == epoch <= Max
StopRule == status # "running" => epoch = Epochs(hist, Max, Tol)
NeverEarly == \A n \in 1..(Len(hist) - 1) : RFinite(hist[n]) /\ ~RLt(hist[n], Tol)
NoResultFromNonFinite == status = "done" => \A n \in 1..Len(hist) : RFinite(hist[n])
Terminates == <>(status # "running")
==============================================================================
