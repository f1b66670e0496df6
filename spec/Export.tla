------------------------------- MODULE Export --------------------------------
(* Generation and export interleaved (C25).  A generator's accumulated field  *)
(* is identified by its number of blocks; a file holds the field of the       *)
(* generator that last wrote it, as it was then.                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Gens, Paths, MaxB
VARIABLES blocks,       \* [Gens -> Nat] blocks accumulated
          files         \* [Paths -> <<generator, blocks>> or <<>>]
xvars == <<blocks, files>>
Init == blocks = [g \in Gens |-> 0] /\ files = [p \in Paths |-> <<>>]
Generate(g, n) == blocks[g] + n <= MaxB /\ blocks' = [blocks EXCEPT ![g] = @ + n] /\ UNCHANGED files
Save(g, p) == blocks[g] > 0 /\ files' = [files EXCEPT ![p] = <<g, blocks[g]>>] /\ UNCHANGED blocks
Next == \E g \in Gens : (\E n \in 1..2 : Generate(g, n)) \/ \E p \in Paths : Save(g, p)
Spec == Init /\ [][Next]_xvars
\* a file never holds more than its generator has, and only saving changes it
NotAhead == \A p \in Paths : files[p] # <<>> => files[p][2] <= blocks[files[p][1]]
OnlySaves == [][\A p \in Paths : files'[p] # files[p] => \E g \in Gens : Save(g, p)]_xvars
SavingKeeps == [][(\E g \in Gens, p \in Paths : Save(g, p)) => blocks' = blocks]_xvars

(* Layout of a written field of n1 x n2 x n3 points: x runs fastest, the      *)
(* three components of a point are adjacent.  Offset of component c of point  *)
(* (i, j, k), everything counted from 0.                                      *)
Offset(n1, n2, i, j, k, c) == 3 * (i + n1 * (j + n2 * k)) + c
==============================================================================
