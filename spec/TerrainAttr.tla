---------------------------- MODULE TerrainAttr ----------------------------
(* Terrain attributes of a cell from its 3x3 window of heights,             *)
(*     a b c          1 2 3                                                 *)
(*     d e f     as   4 5 6 ,                                               *)
(*     g h i          7 8 9                                                 *)
(* as exact integers.  lx, ly: cell sizes.                                  *)
EXTENDS Raster

\* The window of x: neighbours without data are taken at the height of x.
Around == <<2, 3, 4, 1, 0, 5, 8, 7, 6>>   \* window position -> direction
Window(w, h, z, ND, x) ==
  [k \in 1..9 |-> IF k = 5 THEN z[x] ELSE LET t == Step8(w, h, x, Around[k]) IN IF t = 0 \/ t \in ND THEN z[x] ELSE z[t]]

\* Horn (1981): eight times the rise eastwards and southwards across the cell
EastRise(W) == (W[3] + 2 * W[6] + W[9]) - (W[1] + 2 * W[4] + W[7])
SouthRise(W) == (W[7] + 2 * W[8] + W[9]) - (W[1] + 2 * W[2] + W[3])
Sq(v) == v * v
\* square of (8 lx ly) times the slope (rise over run)
Steepness(W, lx, ly) == Sq(EastRise(W) * ly) + Sq(SouthRise(W) * lx)
\* the downslope direction's eastward and northward parts, both zero on flats
DownEast(W, lx, ly) == -(EastRise(W) * ly)
DownNorth(W, lx, ly) == SouthRise(W) * lx

\* Zevenbergen and Thorne (1987)
ZD(W) == W[4] + W[6] - 2 * W[5]            \* 2 L^2 D
ZE(W) == W[2] + W[8] - 2 * W[5]            \* 2 L^2 E
ZF(W) == W[3] - W[1] + W[7] - W[9]         \* 4 L^2 F
ZG(W) == W[6] - W[4]                       \* 2 L G
ZH(W) == W[2] - W[8]                       \* 2 L H
Steep2(W) == Sq(ZG(W)) + Sq(ZH(W))
\* L^2/100 times the curvatures; planform and profile also times 2*Steep2
Curvature(W) == -(ZD(W) + ZE(W))
Planform2(W) == -(2 * ZD(W) * Sq(ZH(W)) + 2 * ZE(W) * Sq(ZG(W)) - ZF(W) * ZG(W) * ZH(W))
Profile2(W) == 2 * ZD(W) * Sq(ZG(W)) + 2 * ZE(W) * Sq(ZH(W)) + ZF(W) * ZG(W) * ZH(W)

\* Jenness (2004): eight triangles between the centres of the cells, each
\* counted by the quarter that lies in the cell: (8 times that area) squared.
Spokes == <<<<4, 1, "x">>, <<4, 7, "x">>, <<6, 3, "x">>, <<6, 9, "x">>,
            <<2, 1, "y">>, <<2, 3, "y">>, <<8, 7, "y">>, <<8, 9, "y">>>>
Triangle(W, lx, ly, t) ==
  LET a == W[t[1]] - W[5]
      b == W[t[2]] - W[t[1]]
  IN IF t[3] = "x" THEN Sq(a * ly) + Sq(b * lx) + Sq(lx * ly) ELSE Sq(a * lx) + Sq(b * ly) + Sq(lx * ly)

RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN IsqrtIn(n, m, hi) ELSE IsqrtIn(n, lo, m - 1)
Isqrt(n) == IsqrtIn(n, 0, 46340)
=============================================================================
