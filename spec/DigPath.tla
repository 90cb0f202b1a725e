------------------------------ MODULE DigPath -------------------------------
(* The path a breach follows and what is dug along it, for terrains whose    *)
(* cells all lie at different heights and which have a single pit: there the *)
(* least-cost path is unique.                                                *)
EXTENDS Raster, SequencesExt
\* The flood from the outlets pops the lowest waiting cell; a cell's way back
\* is the cell from which it was first met.
FloodStep(s, z, N, p) ==
  IF s.q = {} \/ s.done THEN s
  ELSE LET c == CHOOSE a \in s.q : \A b \in s.q : z[a] <= z[b]
           new == {b \in N[c] : ~s.seen[b]}
       IN IF c = p THEN [s EXCEPT !.done = TRUE]
          ELSE [s EXCEPT !.q = TLCEval((@ \ {c}) \cup new),
                         !.seen = TLCEval([x \in DOMAIN @ |-> @[x] \/ x \in new]),
                         !.back = TLCEval([x \in DOMAIN @ |-> IF x \in new THEN c ELSE @[x]])]
\* Ways back, found by flooding from Out until p is popped.
Backs(z, Out, N, p) ==
  LET s0 == [q |-> Out, seen |-> [x \in DOMAIN N |-> x \in Out], back |-> [x \in DOMAIN N |-> 0], done |-> FALSE]
  IN (FoldLeft(LAMBDA s, i : FloodStep(s, z, N, p), s0, [i \in 1..Cardinality(DOMAIN N) + 1 |-> i])).back
\* The cells on the way back from c to the first one below `low`, or an outlet.
RECURSIVE Way(_, _, _, _)
Way(back, z, low, c) == IF c = 0 \/ z[c] < low THEN <<>> ELSE <<c>> \o Way(back, z, low, back[c])
(* What has to be there afterwards: a function from the cells of the path to  *)
(* <<height, steps below it>>; other cells keep theirs.  `low` is the lowest *)
(* neighbour of the pit, to which it was raised.                             *)
Dug(mode, eps, ml, mdep, z, low, way) ==
  LET n == Len(way)
      lift(k) == IF k = 1 THEN low ELSE z[way[k]]       \* (the pit itself was raised)
      level(k) == <<low, IF eps THEN k ELSE 0>>
      depth == SetMax({lift(k) - low : k \in 1..n})
      bound(k) == z[way[k]] - mdep                      \* constrained: no deeper than this
  IN CASE mode = "complete" -> [k \in 1..n |-> level(k)]
       [] mode = "selective" -> IF n <= ml /\ depth <= mdep THEN [k \in 1..n |-> level(k)]
                                ELSE [k \in 1..n |-> IF k = 1 THEN level(1) ELSE <<z[way[k]], 0>>]
       [] OTHER -> [k \in 1..n |->
             IF k = 1 THEN level(1)
             ELSE IF k > ml THEN <<z[way[k]], 0>>
             ELSE IF bound(k) >= low /\ (eps \/ bound(k) > low) THEN <<Min2(z[way[k]], bound(k)), 0>>
             ELSE level(k)]
=============================================================================
