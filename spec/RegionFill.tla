---------------------------- MODULE RegionFill -----------------------------
(* Painting connected regions and measuring how a raster's data are exposed. *)
(* A bucket fill paints every cell of the checked value that is connected to *)
(* a seed through such cells which do not yet hold the paint.                *)
EXTENDS Raster

\* K: checked raster, S: raster painted, v: checked value, s: paint.
Open(K, S, v, s) == {x \in DOMAIN K : K[x] = v /\ S[x] # s}
PaintedRegion(K, S, v, s, Seeds, N) ==
  LET A == TLCEval(Open(K, S, v, s))
  IN Reach(Seeds \cap A, TLCEval([x \in DOMAIN K |-> IF x \in A THEN N[x] \cap A ELSE {}]))
Painted(K, S, v, s, Seeds, N) ==
  LET R == TLCEval(PaintedRegion(K, S, v, s, Seeds, N))
  IN [x \in DOMAIN K |-> IF x \in R THEN s ELSE S[x]]

\* ---- exposure; ND are the cells without data
Gap(w, h, ND, x, n) == LET t == Step8(w, h, x, n) IN t = 0 \/ t \in ND
ExposedCells(w, h, ND) == {x \in Cells(w, h) \ ND : \E n \in 1..8 : Gap(w, h, ND, x, n)}
\* edges shared with the cells above and below, and to the left and right
FlatEdges(w, h, ND) == {e \in (Cells(w, h) \ ND) \X {3, 7} : Gap(w, h, ND, e[1], e[2])}
UprightEdges(w, h, ND) == {e \in (Cells(w, h) \ ND) \X {1, 5} : Gap(w, h, ND, e[1], e[2])}
EdgeLength(w, h, ND, lx, ly) == lx * Cardinality(FlatEdges(w, h, ND)) + ly * Cardinality(UprightEdges(w, h, ND))
=============================================================================
