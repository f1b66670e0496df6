-------------------------------- MODULE Pick --------------------------------
(* Choice of inputs, one field at a time: Fields is a sequence of pairs     *)
(* <<name, set of values>>.  Every complete choice is printed, extended by  *)
(* what the specification derives from it.                                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Fields, Derive(_)
VARIABLES h, i

PInit == h = [x \in {} |-> 0] /\ i = 1
PNext == /\ i <= Len(Fields)
         /\ \E v \in Fields[i][2] : h' = h @@ (Fields[i][1] :> v)
         /\ i' = i + 1
PSpec == PInit /\ [][PNext]_<<h, i>>
Emit == (i = Len(Fields) + 1) => PrintT(ToJson(Derive(h)))
=============================================================================
