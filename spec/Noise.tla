------------------------------- MODULE Noise -------------------------------
(* Gradient noise on a slice of a three-dimensional lattice.  Every lattice  *)
(* point has one of the twelve gradients that point to the middle of an edge *)
(* of a cube; the noise at a place is the blend, along x, then y, then z,    *)
(* of what the eight surrounding points contribute: the product of their     *)
(* gradient with the way from them to the place.  The slice lies at four     *)
(* fifths of the way from one layer to the next, so the two points above     *)
(* each other act like one point with the blend of both.                     *)
(*                                                                           *)
(* All numbers are multiples of 1/One.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 10000
\* a place within a cell is i/s; the blending curve 6t^5 - 15t^4 + 10t^3 there
Curve(i, s) == (i * i * i * (i * (6 * i - 15 * s) + 10 * s * s) * One) \div (s * s * s * s * s)
Mix(f, a, b) == a + (f * (b - a)) \div One
Zw == 9421           \* the curve at 4/5
Above == 8000        \* the slice above the lower layer, and below the upper one
Below == -2000
Gradients == {g \in [1..3 -> {-1, 0, 1}] : Cardinality({k \in 1..3 : g[k] = 0}) = 1}
\* two gradients above each other, as one: <<x, y, the value at the point itself>>
Blend(g, h) == <<Mix(Zw, g[1] * One, h[1] * One), Mix(Zw, g[2] * One, h[2] * One), Mix(Zw, g[3] * Above, h[3] * Below)>>
Points == {Blend(g, h) : g \in Gradients, h \in Gradients}
\* what point G contributes at (dx, dy)/s from it
Part(G, dx, dy, s) == (G[1] * dx) \div s + (G[2] * dy) \div s + G[3]
\* the noise at (i, j)/s of the cell whose corners are A B (above) and C D
In(A, B, C, D, i, j, s) ==
  LET fi == Curve(i, s) fj == Curve(j, s)
  IN Mix(fj, Mix(fi, Part(A, i, j, s), Part(B, i - s, j, s)), Mix(fi, Part(C, i, j - s, s), Part(D, i - s, j - s, s)))
Near(a, b) == a - b <= 8 /\ b - a <= 8
=============================================================================
