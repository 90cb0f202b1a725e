--------------------------- MODULE PriorityFlood ---------------------------
(* The flood as a transition system: water enters from the raster's edge.   *)
(* A step takes any lowest open cell, or any cell of the pit set (cells at  *)
(* or below the water level that raised them), and hands its neighbours on. *)
(* Ties and pit order are nondeterministic, so one model covers every       *)
(* implementation that respects the queue discipline.  Checked for every    *)
(* terrain over Elev on a W x H raster in both connectivities.              *)
EXTENDS Fill
CONSTANTS W, H, Elev, UsePit, Walled

VARIABLES topo, z, lev, open, pit, closed, lab, nlab, last
vars == <<topo, z, lev, open, pit, closed, lab, nlab, last>>

C == Cells(W, H)
N8 == Nb8(W, H)
N4 == Nb4(W, H)
NN == IF topo = 8 THEN N8 ELSE N4
Edge == EdgeCells(W, H)

\* All terrains over Elev or, for wider rasters, those whose border is a wall
\* (of distinct heights) with two gaps.
Terrains ==
  IF ~Walled THEN [C -> Elev]
  ELSE {[c \in C |-> IF c \notin Edge THEN f[c] ELSE IF c = 2 THEN e1 ELSE IF c = o THEN e2 ELSE 10 + c] :
          f \in [C \ Edge -> Elev], o \in Edge \ {2}, e1 \in {0, 1}, e2 \in {0, 1}}

Init == /\ topo \in {4, 8}
        /\ z \in Terrains
        /\ lev = z
        /\ open = Edge
        /\ pit = {}
        /\ closed = Edge
        /\ lab = [c \in C |-> 0]
        /\ nlab = 1
        /\ last = -1

Candidates == IF pit # {} THEN pit
              ELSE {c \in open : \A d \in open : lev[c] <= lev[d]}

\* Visiting c: unseen neighbours are closed, raised if needed, and queued.
Visit(c) ==
  LET fresh == NN[c] \ closed
      raised == {n \in fresh : lev[n] <= lev[c]}
      myLab == IF lab[c] # 0 THEN lab[c] ELSE nlab
  IN /\ c \in Candidates
     /\ closed' = closed \cup fresh
     /\ lev' = [n \in C |-> IF n \in raised THEN lev[c] ELSE lev[n]]
     /\ IF UsePit THEN /\ pit' = (pit \ {c}) \cup raised
                       /\ open' = (open \ {c}) \cup (fresh \ raised)
                  ELSE /\ pit' = {} /\ open' = (open \ {c}) \cup fresh
     /\ lab' = [n \in C |-> IF n = c \/ n \in fresh THEN myLab ELSE lab[n]]
     /\ nlab' = IF lab[c] # 0 THEN nlab ELSE nlab + 1
     /\ last' = lev[c]
     /\ UNCHANGED <<topo, z>>
Next == \E c \in C : Visit(c)
Spec == Init /\ [][Next]_vars

Done == open = {} /\ pit = {}

NeverLowers == \A c \in C : lev[c] >= z[c]
EdgesKept == \A c \in Edge : lev[c] = z[c]
QueueClosed == open \cup pit \subseteq closed /\ open \cap pit = {}
\* Once closed a cell's level is final: it already is the filled level.
ClosedFinal == \A c \in closed : lev[c] = FillOf(z, W, H, NN)[c]
DoneIsFill == Done => /\ lev = FillOf(z, W, H, NN)
                      /\ IsFill([c \in C |-> z[c]], [c \in C |-> lev[c]], W, H, NN)
\* Labels given by the flood: every cell labelled, each label connected and
\* holding exactly one cell that opened it (an edge cell).
DoneLabels == Done =>
  /\ \A c \in C : lab[c] # 0
  /\ \A l \in {lab[c] : c \in C} :
       LET S == {c \in C : lab[c] = l}
       IN S \cap Edge # {} /\ Cardinality(Components(S, NN)) = 1
Monotone == [][last' >= last]_vars
=============================================================================
