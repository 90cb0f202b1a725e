---------------------------- MODULE LayoutModel ----------------------------
(* Whatever grid of names and gaps is written is read back the same.         *)
EXTENDS Layout
CONSTANTS MaxW, MaxH, Names
VARIABLES grid, done
Init == \E w \in 1..MaxW, h \in 1..MaxH : grid \in [1..h -> [1..w -> Names]] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED grid
\* names come back without their directories and surrounding blanks
Expect(g) == [y \in 1..Len(g) |-> [x \in 1..Len(g[y]) |-> Trim(FileOf(g[y][x]))]]
RoundTrip == Grid(Text(grid)) = Expect(grid)
NamesUsed == {<<>>, <<97>>, <<98, 46, 99>>, <<100, 47, 97>>}
=============================================================================
