------------------------------- MODULE Flats -------------------------------
(* Flats and the gradient imposed on them: away from higher ground combined *)
(* with towards lower ground.                                               *)
EXTENDS Raster
\* z: elevations, ND: set of NoData cells, E: raster edge, N: 8-neighbourhoods
FlatCells(z, ND, E, N) ==
  {c \in DOMAIN z : c \notin ND /\ c \notin E /\ N[c] \cap ND = {} /\ \A n \in N[c] : z[n] >= z[c]}
LowEdges(z, ND, Flat, N) ==
  {c \in DOMAIN z : c \notin ND /\ c \notin Flat /\ \E n \in N[c] : n \in Flat /\ z[n] = z[c]}
HighEdges(z, Flat, N) == {c \in Flat : \E n \in N[c] : z[n] > z[c]}
\* Everything of a drainable flat's level connected to it at that level.
GroupOf(z, ND, Low, N) ==
  Reach(Low, TLCEval([c \in DOMAIN z |-> {n \in N[c] : n \notin ND /\ z[n] = z[c]}]))
SameLevel(z, ND, N) == TLCEval([c \in DOMAIN z |-> {n \in N[c] : n \notin ND /\ z[n] = z[c]}])
RECURSIVE MaxOf(_, _)
MaxOf(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Max2(f[c], MaxOf(f, S \ {c}))

\* The combined mask for every cell (0 outside drainable flats).
MaskOf(z, ND, E, N) ==
  LET Flat == TLCEval(FlatCells(z, ND, E, N))
      Low == TLCEval(LowEdges(z, ND, Flat, N))
      Lvl == SameLevel(z, ND, N)
      Group == TLCEval(Reach(Low, Lvl))
      Step == TLCEval([c \in DOMAIN z |-> Lvl[c] \cap Flat])
      High == HighEdges(z, Flat, N) \cap Group
      A == TLCEval(Layers(High, Step))
      T == TLCEval(Layers(Low, Step))
      K == Components(Group, Lvl)
      G == TLCEval([c \in DOMAIN z |-> IF c \in Group THEN CHOOSE S \in K : c \in S ELSE {}])
      Hgt == TLCEval([S \in K |-> MaxOf(A, S)])
  IN TLCEval([c \in DOMAIN z |-> IF c \notin Group \/ T[c] = 0 THEN 0
                         ELSE IF A[c] = 0 THEN 2 * T[c]
                         ELSE Hgt[G[c]] - A[c] + 2 * T[c]])
=============================================================================
