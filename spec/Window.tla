------------------------------- MODULE Window -------------------------------
(* Geometry of the noise window behind a block (C03), of the block in space *)
(* (C04, C12), and the mean profiles.                                       *)
EXTENDS Integers, Sequences, Real64

Pow2(n) == 2 ^ n
Nodes(lv) == [d \in 1..3 |-> Pow2(lv[d]) + 1]
Spacing(dims, lv) == [d \in 1..3 |-> RDiv(dims[d], Pow2(lv[d]) + 1)]

Buffer(L, G, dx) == RCeil(RDiv(RMul(RMul(3, G), L), dx))
Margin(L, d) == RCeil(RDiv(L, d))
Blend(b) == IF b > 0 THEN b - 1 ELSE 0

Geometry(c) ==
  LET n == Nodes(c.lv)
      s == Spacing(c.dims, c.lv)
      nb == Buffer(c.L, c.G, s[1])
      my == Margin(c.L, s[2])
      mz == Margin(c.L, s[3])
  IN [n |-> n, nb |-> nb, my |-> my, mz |-> mz,
      w |-> <<n[1] + 2 * nb + Blend(c.blend), n[2] + 2 * my, n[3] + 2 * mz>>,
      from |-> <<nb, my, 0>>]

\* the planes (0-based) of the stream behind block b (0-based), and behind plane i of it
BlockPlanes(g, b) == <<b * g.n[1], b * g.n[1] + g.w[1] - 1>>

\* ceilings that do not hang on the last bit of a division
Robust(x) == LET r == RSub(x, RFloor(RAdd(x, "0.5"))) IN RLt("1e-7", RAbs(r))
RobustGeometry(c) ==
  LET s == Spacing(c.dims, c.lv)
  IN /\ RLe(c.G, 0) \/ Robust(RDiv(RMul(RMul(3, c.G), c.L), s[1]))
     /\ Robust(RDiv(c.L, s[2])) /\ Robust(RDiv(c.L, s[3]))

(***** mean profiles ******************************************************)
LogLaw(z, z0, zref, uref) == RDiv(RMul(uref, RLn(RAdd(RDiv(z, z0), 1))), RLn(RDiv(zref, z0)))
PowerLaw(z, zref, uref, a) == RMul(uref, RPow(RDiv(z, zref), a))
Profile(p, z) == IF p.type = "LOG" THEN LogLaw(z, p.z0, p.zref, p.uref) ELSE PowerLaw(z, p.zref, p.uref, p.exp)
\* heights of the grid: from 0 to the domain height, inclusive
Height(c, k) == RDiv(RMul(c.dims[3], k - 1), Pow2(c.lv[3]))

(***** low-frequency superposition ****************************************)
\* bilinear interpolation in table t (rows in x) with spacings hx, hy; zero outside the nodes
Outside(x, n, h) == RLt(x, "0") \/ RLt(RMul(h, n - 1), x)
NearEdge(x, n, h) == RLt(RAbs(x), RMul(h, "1e-7")) \/ RLt(RAbs(RSub(x, RMul(h, n - 1))), RMul(h, "1e-7"))
Cell(x, n, h) == LET f == RFloor(RDiv(x, h)) IN IF f > n - 2 THEN n - 2 ELSE IF f < 0 THEN 0 ELSE f
Lerp(a, b, t) == RAdd(RMul(a, RSub(1, t)), RMul(b, t))
Interp(t, x, y, hx, hy) ==
  LET n == Len(t) m == Len(t[1]) IN
  IF Outside(x, n, hx) \/ Outside(y, m, hy) THEN "0"
  ELSE LET i == Cell(x, n, hx) j == Cell(y, m, hy)
           tx == RSub(RDiv(x, hx), i) ty == RSub(RDiv(y, hy), j)
       IN Lerp(Lerp(t[i+1][j+1], t[i+1][j+2], ty), Lerp(t[i+2][j+1], t[i+2][j+2], ty), tx)
\* position of point (i, j) of block b (0-based)
XOf(c, b, i) == RAdd(RMul(c.dims[1], b), RMul(i, RDiv(c.dims[1], Pow2(c.lv[1]) + 1)))
YOf(c, lf, j) == RAdd(RDiv(RSub(lf.L2, c.dims[2]), 2), RMul(j, RDiv(c.dims[2], Pow2(c.lv[2]) + 1)))
=============================================================================
