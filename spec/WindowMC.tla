------------------------------ MODULE WindowMC ------------------------------
(* The rolling window as a machine on plane numbers: a window of w planes   *)
(* is rolled by nx and its end refilled from the stream.  Checked for every *)
(* buffer and blend width up to the bounds: block b correlates the planes   *)
(* b*nx .. b*nx+w-1, its kept part has exactly nx planes and consecutive    *)
(* kept parts are neighbours in the stream (no plane skipped or repeated).  *)
EXTENDS Integers, Sequences
CONSTANTS MaxNx, MaxBuf, MaxBlend, MaxB
VARIABLES nx, nb, blend, win, drawn, b, kept

Ext == 2 * nb + (IF blend > 0 THEN blend - 1 ELSE 0)
W == nx + Ext
First == [i \in 1..W |-> i - 1]
Keep(w) == SubSeq(w, nb + 1, nb + nx)       \* the planes the kept part sits on
Init == /\ nx \in 2..MaxNx /\ nb \in 0..MaxBuf /\ blend \in 0..MaxBlend
        /\ win = <<>> /\ drawn = 0 /\ b = 0 /\ kept = <<>>
Next == /\ b < MaxB
        /\ win' = IF b = 0 THEN First
                  ELSE [i \in 1..W |-> IF i > Ext THEN drawn + (i - Ext) - 1 ELSE win[((i - 1 + nx) % W) + 1]]
        /\ drawn' = IF b = 0 THEN W ELSE drawn + nx
        /\ kept' = Append(kept, Keep(win'))
        /\ b' = b + 1
        /\ UNCHANGED <<nx, nb, blend>>
Spec == Init /\ [][Next]_<<nx, nb, blend, win, drawn, b, kept>>
WindowOfBlock == b > 0 => win = [i \in 1..W |-> (b - 1) * nx + i - 1]
KeptSize == \A k \in 1..Len(kept) : Len(kept[k]) = nx
NoSeam == \A k \in 1..(Len(kept) - 1) : kept[k + 1][1] = kept[k][nx] + 1
=============================================================================
