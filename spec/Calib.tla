-------------------------------- MODULE Calib --------------------------------
(***************************************************************************)
(* The calibration loop.  An epoch evaluates the loss one or more times    *)
(* and moves the parameters; its loss is the one evaluated last.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Components == <<"11", "22", "33", "13", "23", "12">>
\* where the data tensor holds a component
RowCol == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<2, 3>>, <<1, 2>>>>
Admissible(n) == n \in {3, 4, 6}
Selected(n) == 1..n

\* number of epochs performed, given the losses of the epochs (enough of them)
RECURSIVE EpochsFrom(_, _, _, _)
EpochsFrom(losses, max, tol, e) ==
  IF e >= max THEN max
  ELSE IF e >= 1 /\ (~RFinite(losses[e]) \/ RLt(losses[e], tol)) THEN e
  ELSE EpochsFrom(losses, max, tol, e + 1)
Epochs(losses, max, tol) == EpochsFrom(losses, max, tol, 0)

\* cosine annealing of the learning rate
Rate(lr, e, max) == RMul(lr, RMul("0.5", RAdd("1", RCos(RDiv(RMul(RPi, e - 1), max)))))
==============================================================================
