------------------------------ MODULE Raster -------------------------------
(* Rasters as finite grids.  A raster of width w and height h is a sequence *)
(* of w*h values in row-major order; a cell is a position 1..w*h.           *)
(* Directions are numbered as the library numbers them: 1..8 clockwise from *)
(* west (8-connected), 1..4 clockwise from west (4-connected), 0 = none.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DX8 == <<-1, -1, 0, 1, 1, 1, 0, -1>>
DY8 == <<0, -1, -1, -1, 0, 1, 1, 1>>
DX4 == <<-1, 0, 1, 0>>
DY4 == <<0, -1, 0, 1>>
Diagonal8(n) == n % 2 = 0
Inverse8(n) == ((n + 3) % 8) + 1

Cells(w, h) == 1 .. (w * h)
XOf(w, c) == (c - 1) % w
YOf(w, c) == (c - 1) \div w
CellAt(w, x, y) == y * w + x + 1
InGrid(w, h, x, y) == x >= 0 /\ y >= 0 /\ x < w /\ y < h
IsEdge(w, h, c) == \/ XOf(w, c) = 0 \/ XOf(w, c) = w - 1
                   \/ YOf(w, c) = 0 \/ YOf(w, c) = h - 1
EdgeCells(w, h) == {c \in Cells(w, h) : IsEdge(w, h, c)}

\* Cell one step from c in direction n; 0 when that is off the raster.
Step8(w, h, c, n) ==
  LET x == XOf(w, c) + DX8[n]
      y == YOf(w, c) + DY8[n]
  IN IF InGrid(w, h, x, y) THEN CellAt(w, x, y) ELSE 0
Step4(w, h, c, n) ==
  LET x == XOf(w, c) + DX4[n]
      y == YOf(w, c) + DY4[n]
  IN IF InGrid(w, h, x, y) THEN CellAt(w, x, y) ELSE 0

\* Neighbourhoods, as a function from cells to sets of cells.
Nb8(w, h) == TLCEval([c \in Cells(w, h) |-> {Step8(w, h, c, n) : n \in 1..8} \ {0}])
Nb4(w, h) == TLCEval([c \in Cells(w, h) |-> {Step4(w, h, c, n) : n \in 1..4} \ {0}])
Nb(topo, w, h) == IF topo = 8 THEN Nb8(w, h) ELSE Nb4(w, h)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
SetMax(S) == CHOOSE m \in S : \A x \in S : m >= x

\* Breadth-first closure: all cells reachable from Start along Succ, a function
\* from cells to sets of cells.
RECURSIVE ReachFrom(_, _, _)
ReachFrom(Done, Frontier, Succ) ==
  IF Frontier = {} THEN Done
  ELSE LET D2 == TLCEval(Done \cup Frontier)
           F2 == TLCEval((UNION {Succ[a] : a \in Frontier}) \ D2)
       IN ReachFrom(D2, F2, Succ)
Reach(Start, Succ) == ReachFrom({}, Start, Succ)

\* The same with marks instead of a growing set: faster on large rasters.
RECURSIVE MarkFrom(_, _, _)
MarkFrom(Seen, Frontier, Succ) ==
  IF Frontier = {} THEN Seen
  ELSE LET S2 == TLCEval([x \in DOMAIN Seen |-> Seen[x] \/ x \in Frontier])
           F2 == TLCEval(UNION {{b \in Succ[a] : ~S2[b]} : a \in Frontier})
       IN MarkFrom(S2, F2, Succ)
ReachesAll(Start, Succ) ==
  LET M == MarkFrom(TLCEval([x \in DOMAIN Succ |-> FALSE]), Start, Succ) IN \A x \in DOMAIN Succ : M[x]

\* Number of the breadth-first layer (from 1) in which a cell is reached along
\* Succ from Start; 0 for cells never reached.
RECURSIVE Layer(_, _, _, _, _)
Layer(d, k, Frontier, Seen, Succ) ==
  IF Frontier = {} THEN d
  ELSE LET S2 == TLCEval(Seen \cup Frontier)
           F2 == TLCEval((UNION {Succ[a] : a \in Frontier}) \ S2)
       IN Layer(TLCEval([c \in DOMAIN d |-> IF c \in Frontier THEN k ELSE d[c]]), k + 1, F2, S2, Succ)
Layers(Start, Succ) == Layer(TLCEval([c \in DOMAIN Succ |-> 0]), 1, Start, {}, Succ)

\* Partition of S into its connected components (as a set of sets).
RECURSIVE Comps(_, _, _)
Comps(S, Succ, Acc) ==
  IF S = {} THEN Acc
  ELSE LET c == CHOOSE c \in S : TRUE
           K == TLCEval(ReachFrom({}, {c}, Succ))
       IN Comps(TLCEval(S \ K), Succ, Acc \cup {K})
Components(S, Nbr) == Comps(S, TLCEval([c \in S |-> Nbr[c] \cap S]), {})

RECURSIVE SumOver(_, _)
SumOver(f, S) ==
  IF S = {} THEN 0
  ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOver(f, S \ {c})

RECURSIVE SumSeqTo(_, _)
SumSeqTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeqTo(s, n - 1)
SumSeq(s) == SumSeqTo(s, Len(s))
Abs(a) == IF a < 0 THEN -a ELSE a
=============================================================================
