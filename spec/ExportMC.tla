------------------------------ MODULE ExportMC -------------------------------
(* The layout is a bijection between points with components and positions.    *)
EXTENDS Export
VARIABLE dims
LInit == Init /\ dims \in (1..4) \X (1..3) \X (1..3)
LSpec == LInit /\ [][Next /\ UNCHANGED dims]_<<xvars, dims>>
Layout == LET P == (0..dims[1]-1) \X (0..dims[2]-1) \X (0..dims[3]-1) \X (0..2)
              O == {Offset(dims[1], dims[2], p[1], p[2], p[3], p[4]) : p \in P}
          IN O = 0..(3 * dims[1] * dims[2] * dims[3] - 1)
Neighbours == Offset(dims[1], dims[2], 1, 0, 0, 0) - Offset(dims[1], dims[2], 0, 0, 0, 0) = 3
==============================================================================
