------------------------------ MODULE GridOps --------------------------------
(* Divergence, grids and layouts (C26).  A scalar field is a triple-nested    *)
(* sequence f[i][j][k] of reals, counted from 1.                              *)
EXTENDS Integers, Sequences, Real64

Dx(f, h, i, j, k) == RDiv(RSub(f[i + 1][j][k], f[i - 1][j][k]), RMul("2", h))
Dy(f, h, i, j, k) == RDiv(RSub(f[i][j + 1][k], f[i][j - 1][k]), RMul("2", h))
Dz(f, h, i, j, k) == RDiv(RSub(f[i][j][k + 1], f[i][j][k - 1]), RMul("2", h))
Interior(f) == (2..(Len(f) - 1)) \X (2..(Len(f[1]) - 1)) \X (2..(Len(f[1][1]) - 1))
Points(f) == (1..Len(f)) \X (1..Len(f[1])) \X (1..Len(f[1][1]))
Div(F, h, p) == RAdd(RAdd(Dx(F[1], h[1], p[1], p[2], p[3]), Dy(F[2], h[2], p[1], p[2], p[3])), Dz(F[3], h[3], p[1], p[2], p[3]))
GridAt(h, p) == <<RMul(h[1], p[1] - 1), RMul(h[2], p[2] - 1), RMul(h[3], p[3] - 1)>>
==============================================================================
