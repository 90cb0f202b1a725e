--------------------------- MODULE FlowMetricModel ---------------------------
(* The metrics' definitions are sound: around the centre of every 3 x 3      *)
(* terrain over Elev (and up to one NoData neighbour) each metric has a      *)
(* choice exactly when it should, and only ever sends flow strictly down.    *)
EXTENDS DInf
CONSTANT Elev
VARIABLES row, z, nd, ok
Mid == 5
Init == row \in [1..3 -> Elev] /\ z = <<>> /\ nd = 0 /\ ok = TRUE
L(dirs) == LowerDirs(z', (IF nd' = 0 THEN {} ELSE {nd'}), 3, 3, Mid, dirs)
Sound ==
  LET ND == IF nd' = 0 THEN {} ELSE {nd'}
      L8 == TLCEval(L(1..8))
      L4 == TLCEval(L(Straight))
      B == TLCEval(BestFacets(z', ND, 3, 3, Mid))
  IN /\ LowestDirs(z', 3, 3, Mid, L8) \subseteq L8 /\ (L8 # {}) = (LowestDirs(z', 3, 3, Mid, L8) # {})
     /\ Rho8Dirs(z', 3, 3, Mid, L8) \subseteq L8 /\ (L8 # {}) = (Rho8Dirs(z', 3, 3, Mid, L8) # {})
     /\ Rho4Dirs(z', 3, 3, Mid, L4) \subseteq L4 /\ (L4 # {}) = (Rho4Dirs(z', 3, 3, Mid, L4) # {})
     /\ (nd' = 0) => ((B # {}) = (L8 # {}))
     /\ (B # {}) => (L8 # {})
     \* what a facet gives flow to is strictly lower
     /\ \A f \in B : LET d == DiagShare(z', 3, 3, Mid, f) IN
          /\ d \in 0..10000
          /\ (d > 0) => f[2] \in L8
          /\ (d < 10000) => f[1] \in L8
     \* steepest single descent never beats the steepest facet
     /\ \A f \in B : \A n \in L8 : nd' = 0 =>
          FacetSteep(z', 3, 3, Mid, f) >= (IF Diagonal8(n) THEN 1 ELSE 2) * Drop(z', 3, 3, Mid, n) * Drop(z', 3, 3, Mid, n)
     \* the angle leads back to the facet's two directions, with the same shares
     /\ \A f \in B : LET a == FacetAngle(z', 3, 3, Mid, f) IN
          /\ ShareOf(a, f[2]) = DiagShare(z', 3, 3, Mid, f)
          /\ ShareOf(a, f[1]) = 10000 - DiagShare(z', 3, 3, Mid, f)
Next == /\ z = <<>>
        /\ \E r2 \in [1..3 -> Elev], r3 \in [1..3 -> Elev] :
             z' = <<row[1], row[2], row[3], r2[1], r2[2], r2[3], r3[1], r3[2], r3[3]>>
        /\ nd' \in {0, 1, 2, 4, 9}
        /\ ok' = (Sound = TRUE)
        /\ UNCHANGED row
Holds == ok
=============================================================================
