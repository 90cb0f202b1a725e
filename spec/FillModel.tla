----------------------------- MODULE FillModel -----------------------------
(* The three definitions of "filled" agree, for every terrain of the bound: *)
(* least maximum over all paths, relaxation, and the linear certificate     *)
(* (which must accept the right surface and reject every single-cell        *)
(* change of it).                                                           *)
EXTENDS Fill
CONSTANTS W, H, Elev
VARIABLES topo, z
C == Cells(W, H)
NN == Nb(topo, W, H)
Init == topo \in {4, 8} /\ z \in [C -> Elev]
Next == FALSE /\ UNCHANGED <<topo, z>>
Agree == LET F == FillOf(z, W, H, NN)
         IN /\ F = FillByPaths(z, W, H, NN)
            /\ IsFill(z, F, W, H, NN)
            /\ \A c \in C : \A d \in {-1, 1} : ~IsFill(z, [F EXCEPT ![c] = @ + d], W, H, NN)
            /\ FillOf(F, W, H, NN) = F
\* Raising a whole lake by one is rejected as well (local balance alone
\* would accept it).
LakeRejected == LET F == FillOf(z, W, H, NN)
                    S == {c \in C : F[c] > z[c]}
                IN S # {} => \A K \in Components(S, NN) :
                      ~IsFill(z, [c \in C |-> IF c \in K THEN F[c] + 1 ELSE F[c]], W, H, NN)
=============================================================================
