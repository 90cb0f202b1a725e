---------------------------- MODULE FlatsModel -----------------------------
(* For every terrain of the bound the combined mask drains every drainable  *)
(* flat: each of its cells has a same-level neighbour strictly lower in the *)
(* mask, or is itself beside lower ground; undrainable flats get nothing.   *)
EXTENDS Flats
CONSTANTS W, H, Elev
VARIABLES z, done
C == Cells(W, H)
N8 == Nb8(W, H)
E == EdgeCells(W, H)
Init == /\ done = FALSE
        /\ z \in {[c \in C |-> IF c \notin E THEN f[c] ELSE IF c = o THEN v ELSE 2] :
                    f \in [C \ E -> Elev], o \in E, v \in {0, 1}}
Flat == FlatCells(z, {}, E, N8)
Low == LowEdges(z, {}, Flat, N8)
Group == GroupOf(z, {}, Low, N8)
M == MaskOf(z, {}, E, N8)
Good == LET m == TLCEval(M)
        IN /\ \A c \in Flat \cap Group : m[c] > 0 /\ \E n \in N8[c] : z[n] = z[c] /\ m[n] < m[c] /\ m[n] > 0
           /\ \A c \in C \ Group : m[c] = 0
           /\ \A c \in Low : m[c] = 2
Next == ~done /\ Assert(Good, z) /\ done' = TRUE /\ UNCHANGED z
=============================================================================
