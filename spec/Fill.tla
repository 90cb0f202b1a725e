------------------------------- MODULE Fill --------------------------------
(* What it means to have filled the depressions of a terrain z: the lowest  *)
(* surface over z from which water can leave to the raster's edge.          *)
EXTENDS Raster

\* Declarative meaning: every cell lies at the least, over all paths to the
\* edge, of the greatest elevation on the path.  (Exponential; small rasters.)
RECURSIVE PathMaxes(_, _, _, _, _)
PathMaxes(c, Visited, E, z, Nbr) ==
  IF c \in E THEN {z[c]}
  ELSE {Max2(z[c], m) : m \in UNION {PathMaxes(n, Visited \cup {c}, E, z, Nbr) :
                                       n \in (Nbr[c] \ Visited)}}
FillByPaths(z, w, h, Nbr) ==
  [c \in Cells(w, h) |-> SetMin(PathMaxes(c, {}, EdgeCells(w, h), z, Nbr))]

\* Operational meaning: water level starts unbounded inside and relaxes
\* downwards until nothing changes.
BIG == 1000000000
RECURSIVE Relax(_, _, _, _)
Relax(W, z, E, Nbr) ==
  LET V == TLCEval([c \in DOMAIN W |->
             IF c \in E THEN W[c]
             ELSE Max2(z[c], Min2(W[c], SetMin({W[n] : n \in Nbr[c]})))])
  IN IF V = W THEN W ELSE Relax(V, z, E, Nbr)
\* Filling towards any set of outlets E, and towards the raster's edge.
FillTo(z, E, Nbr) ==
  Relax(TLCEval([c \in DOMAIN z |-> IF c \in E THEN z[c] ELSE BIG]), z, E, Nbr)
FillOf(z, w, h, Nbr) == FillTo(z, TLCEval(EdgeCells(w, h)), Nbr)

\* Certificate (linear time): W is the filled surface of z iff edge cells are
\* unchanged, no cell stands higher than what a neighbour lets out, and every
\* cell is connected to the edge by steps at which its level is explained.
\* Model-checked against the two definitions above in FillModel.
FillLocal(z, W, E, Nbr) ==
  \A c \in DOMAIN z : IF c \in E THEN W[c] = z[c]
                     ELSE \A n \in Nbr[c] : W[c] <= Max2(z[c], W[n])
FillExplained(z, W, E, Nbr) ==
  ReachesAll(E, TLCEval([a \in DOMAIN z |-> {b \in Nbr[a] : W[b] = Max2(z[b], W[a])}]))
IsFill(z, W, w, h, Nbr) ==
  LET E == TLCEval(EdgeCells(w, h))
  IN /\ Len(W) = w * h
     /\ \A c \in DOMAIN z : W[c] >= z[c]
     /\ FillLocal(z, W, E, Nbr)
     /\ FillExplained(z, W, E, Nbr)
=============================================================================
