---------------------------- MODULE TerrainModel ---------------------------
(* What the definitions must satisfy over every small window: planes have    *)
(* the slope they were drawn with, turning and mirroring the window turns    *)
(* and mirrors the attributes, and the curvatures agree with one another.    *)
(* A sweep visits the cells of a raster in any order, as parallel loops do:  *)
(* each cell is written once and holds its own attribute at the end.         *)
EXTENDS TerrainAttr
CONSTANTS Heights, Lengths, Threads
VARIABLES W, lx, ly, todo, out
vars == <<W, lx, ly, todo, out>>
Rows == 1..3
Z == W \* the window doubles as a 3x3 raster
Init == /\ W \in [1..9 -> Heights] /\ lx \in Lengths /\ ly \in Lengths
        /\ todo = Rows /\ out = [c \in 1..9 |-> -1]
At(c) == Steepness(Window(3, 3, Z, {}, c), lx, ly)
Sweep(r) == /\ r \in todo /\ todo' = todo \ {r}
            /\ out' = [c \in 1..9 |-> IF YOf(3, c) + 1 = r THEN At(c) ELSE out[c]]
            /\ UNCHANGED <<W, lx, ly>>
Next == Threads /\ \E r \in todo : Sweep(r)
Spec == Init /\ [][Next]_vars
Swept == todo = {} => \A c \in 1..9 : out[c] = At(c)
Turn(V) == <<V[7], V[4], V[1], V[8], V[5], V[2], V[9], V[6], V[3]>>  \* a quarter turn clockwise
Flip(V) == <<V[3], V[2], V[1], V[6], V[5], V[4], V[9], V[8], V[7]>>  \* east and west exchanged
Shift(V) == [k \in 1..9 |-> V[k] + 1]
Turned == todo = Rows => LET T == Turn(W) IN
  /\ Steepness(T, ly, lx) = Steepness(W, lx, ly)
  /\ DownEast(T, ly, lx) = DownNorth(W, lx, ly) /\ DownNorth(T, ly, lx) = -DownEast(W, lx, ly)
  /\ Curvature(T) = Curvature(W) /\ Planform2(T) = Planform2(W) /\ Profile2(T) = Profile2(W)
Mirrored == todo = Rows => LET F == Flip(W) IN
  /\ Steepness(F, lx, ly) = Steepness(W, lx, ly) /\ DownEast(F, lx, ly) = -DownEast(W, lx, ly) /\ DownNorth(F, lx, ly) = DownNorth(W, lx, ly)
  /\ Planform2(F) = Planform2(W) /\ Profile2(F) = Profile2(W)
Raised == todo = Rows => LET S == Shift(W) IN
  /\ Steepness(S, lx, ly) = Steepness(W, lx, ly) /\ Curvature(S) = Curvature(W) /\ Planform2(S) = Planform2(W) /\ Profile2(S) = Profile2(W)
  /\ \A k \in 1..8 : Triangle(S, lx, ly, Spokes[k]) = Triangle(W, lx, ly, Spokes[k])
\* total curvature is planform minus profile curvature
Agree == todo = Rows => Planform2(W) - Profile2(W) = Curvature(W) * 2 * Steep2(W)
\* on a plane rising p east and q south: slope, no curvature, area of the plane
Planes == (todo = Rows /\ \A k \in 1..9 : W[k] = W[1]) =>
  \A p \in -2..2, q \in -2..2 :
  LET V == [k \in 1..9 |-> 10 + p * XOf(3, k) + q * YOf(3, k)] IN
  /\ Steepness(V, lx, ly) = Sq(8 * p * ly) + Sq(8 * q * lx)
  /\ Curvature(V) = 0 /\ Planform2(V) = 0 /\ Profile2(V) = 0
  /\ \A k \in 1..8 : Triangle(V, lx, ly, Spokes[k]) = Sq(p * ly) + Sq(q * lx) + Sq(lx * ly)
Roots == (todo = Rows /\ \A k \in 1..9 : W[k] = W[1]) =>
  \A n \in {0, 1, 2, 3, 4, 8, 9, 10, 99, 100, 2147395599, 2147395600, 2147483647} : LET s == Isqrt(n) IN s * s <= n /\ (s < 46340 => (s + 1) * (s + 1) > n)
=============================================================================
