--------------------------------- MODULE D8 ----------------------------------
(* Single-direction flow: directions, accumulation, upslope sets.           *)
EXTENDS Raster
\* Directions that leave the raster.
OffDirs(w, h, x) == {n \in 1..8 : Step8(w, h, x, n) = 0}
\* Directions an interior cell may take: to a lowest neighbour, when lower.
LowestLower(z, w, h, x) ==
  {n \in 1..8 : LET t == z[Step8(w, h, x, n)] IN
      t < z[x] /\ \A m \in 1..8 : z[Step8(w, h, x, m)] >= t}
D8Ok(z, w, h, x, d, E) ==
  IF x \in E THEN d \in OffDirs(w, h, x)
  ELSE LET L == LowestLower(z, w, h, x) IN IF L = {} THEN d = 0 ELSE d \in L

\* Where a direction raster sends each cell: 0 = nowhere or off the raster.
Target(fd, w, h, ND) ==
  [x \in Cells(w, h) |-> IF x \in ND \/ fd[x] \notin 1..8 THEN 0
                         ELSE LET t == Step8(w, h, x, fd[x]) IN IF t \in ND THEN 0 ELSE t]
Upstream(To, N) == [x \in DOMAIN N |-> {n \in N[x] : To[n] = x}]
\* Number of cells draining through x, itself included.
Drains(Up, x) == Cardinality(Reach({x}, Up))

(* The cells of a line from a to b: a connected set within the rectangle of  *)
(* its end points, holding both, every cell close to the ideal line.        *)
IsLine(S, w, x0, y0, x1, y1, N) ==
  LET dx == Abs(x1 - x0)
      dy == Abs(y1 - y0)
      m == Max2(dx, dy)
      a == CellAt(w, x0, y0)
  IN /\ a \in S /\ CellAt(w, x1, y1) \in S
     /\ Reach({a}, [c \in DOMAIN N |-> N[c] \cap S]) = S
     /\ \A c \in S : LET px == XOf(w, c) - x0
                         py == YOf(w, c) - y0
                     IN /\ 2 * Abs(px * (y1 - y0) - py * (x1 - x0)) <= 3 * m
                        /\ px * (x1 - x0) + py * (y1 - y0) >= 0
                        /\ Abs(px) <= dx /\ Abs(py) <= dy
=============================================================================
