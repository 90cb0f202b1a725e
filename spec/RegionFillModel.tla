-------------------------- MODULE RegionFillModel --------------------------
(* The stack-based fill, one seed at a time, over every raster, every paint  *)
(* already present and every order of seeds: it paints what the definition   *)
(* says, empties its seeds, and ends.                                        *)
EXTENDS RegionFill
CONSTANTS W, H, Topo, MaxSeeds, Look   \* Look: "both" also checks the paint
Grid == Cells(W, H)
N == Nb(Topo, W, H)
Offs == IF Topo = 8 THEN 1..8 ELSE 1..4
StepT(c, n) == IF Topo = 8 THEN Step8(W, H, c, n) ELSE Step4(W, H, c, n)
VARIABLES K, S0, S, stack, seeds
vars == <<K, S0, S, stack, seeds>>
Lists == UNION {[1..n -> Grid] : n \in 0..MaxSeeds}
Init == /\ K \in [Grid -> {0, 1}]
        /\ S0 \in [Grid -> {0, 1}] /\ (\A x \in Grid : K[x] = 0 => S0[x] = 0)
        /\ seeds \in Lists /\ stack = seeds /\ S = S0
CanPaint(x) == K[x] = 1 /\ (Look = "both" => S[x] # 1)
RECURSIVE Pushed(_, _, _, _)
Pushed(q, c, P, n) ==
  IF n > Cardinality(Offs) THEN q
  ELSE LET t == StepT(c, n) IN Pushed(IF t # 0 /\ K[t] = 1 /\ P[t] # 1 THEN Append(q, t) ELSE q, c, P, n + 1)
Pop == /\ stack # <<>>
       /\ LET c == stack[Len(stack)]
              rest == SubSeq(stack, 1, Len(stack) - 1)
          IN IF ~CanPaint(c) THEN stack' = rest /\ S' = S
             ELSE LET P == [S EXCEPT ![c] = 1] IN S' = P /\ stack' = Pushed(rest, c, P, 1)
       /\ UNCHANGED <<K, S0, seeds>>
Spec == Init /\ [][Pop]_vars /\ WF_vars(Pop)
Seeds == {seeds[i] : i \in 1..Len(seeds)}
Right == stack = <<>> => S = Painted(K, S0, 1, 1, Seeds, N)
Only == \A x \in Grid : S[x] # S0[x] => x \in PaintedRegion(K, S0, 1, 1, Seeds, N)
Bounded == Len(stack) <= MaxSeeds + Cardinality(Offs) * Cardinality({x \in Grid : S[x] # S0[x]})
Ends == <>(stack = <<>>)
\* painting twice changes nothing more; painted data have no unpainted open neighbour
Closed == stack = <<>> =>
  \A x \in PaintedRegion(K, S0, 1, 1, Seeds, N) : \A y \in N[x] : K[y] = 1 => S[y] = 1
\* exposure: a cell on the rim is exposed; edges of the whole come in pairs
NDs == {x \in Grid : K[x] = 0}
Exposure == /\ EdgeCells(W, H) \ NDs \subseteq ExposedCells(W, H, NDs)
            /\ Cardinality(UprightEdges(W, H, NDs)) % 2 = 0 /\ Cardinality(FlatEdges(W, H, NDs)) % 2 = 0
=============================================================================
