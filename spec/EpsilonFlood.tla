--------------------------- MODULE EpsilonFlood ----------------------------
(* The flood that raises each cell at least one representable step above    *)
(* the cell that reached it.  Elevations count steps.  NoData cells (ND)    *)
(* are sinks of level -1.  Pit cells come first, except that an open cell   *)
(* level with the next pit cell may go before it.                           *)
EXTENDS Fill
CONSTANTS W, H, Elev, WithND

VARIABLES topo, z, nd, lev, open, pit, closed, parent
vars == <<topo, z, nd, lev, open, pit, closed, parent>>
C == Cells(W, H)
N8 == Nb8(W, H)
N4 == Nb4(W, H)
NN == IF topo = 8 THEN N8 ELSE N4
Edge == EdgeCells(W, H)

Init == /\ topo \in {4, 8}
        /\ nd \in (IF WithND THEN {{}} \cup {{c} : c \in C \ Edge} ELSE {{}})
        /\ z \in {[c \in C |-> IF c \in nd THEN -1 ELSE IF c \notin Edge THEN f[c]
                               ELSE IF c = 2 THEN 0 ELSE IF c = o THEN 1 ELSE 20 + c] :
                    f \in [C \ Edge -> Elev], o \in Edge \ {2}}
        /\ lev = z /\ open = Edge /\ pit = <<>> /\ closed = Edge
        /\ parent = [c \in C |-> 0]

Lowest == {c \in open : \A d \in open : lev[c] <= lev[d]}
Candidates == IF pit = <<>> THEN Lowest
              ELSE {Head(pit)} \cup {c \in Lowest : lev[c] = lev[Head(pit)]}

RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(ns, c, l, o, p, cl, par) ==
  IF ns = <<>> THEN <<l, o, p, cl, par>>
  ELSE LET n == Head(ns)
           up == lev[c] + 1
       IN IF n = 0 \/ n \in cl THEN Scan(Tail(ns), c, l, o, p, cl, par)
          ELSE IF n \in nd THEN Scan(Tail(ns), c, l, o, Append(p, n), cl \cup {n}, [par EXCEPT ![n] = c])
          ELSE IF l[n] <= up THEN Scan(Tail(ns), c, [l EXCEPT ![n] = up], o, Append(p, n), cl \cup {n}, [par EXCEPT ![n] = c])
          ELSE Scan(Tail(ns), c, l, o \cup {n}, p, cl \cup {n}, [par EXCEPT ![n] = c])

Order(c) == IF topo = 8 THEN [n \in 1..8 |-> Step8(W, H, c, n)] ELSE [n \in 1..4 |-> Step4(W, H, c, n)]
Visit(c) ==
  /\ c \in Candidates
  /\ LET fromPit == pit # <<>> /\ c = Head(pit)
         r == Scan(Order(c), c, lev, open \ {c}, IF fromPit THEN Tail(pit) ELSE pit, closed, parent)
     IN lev' = r[1] /\ open' = r[2] /\ pit' = r[3] /\ closed' = r[4] /\ parent' = r[5]
  /\ UNCHANGED <<topo, z, nd>>
Next == \E c \in C : Visit(c)
Spec == Init /\ [][Next]_vars
Done == open = {} /\ pit = <<>>

Outlets == Edge \cup nd
NeverLowers == \A c \in C : lev[c] >= z[c]
Kept == \A c \in Outlets : lev[c] = z[c]
ParentBelow == \A c \in closed \ Outlets : lev[parent[c]] < lev[c]
AStep == \A c \in closed \ Outlets : lev[c] = z[c] \/ lev[c] = lev[parent[c]] + 1
DoneDrains == Done =>
  /\ closed = C
  /\ \A c \in C \ Outlets : \E n \in NN[c] : lev[n] < lev[c]
  /\ LET F == FillTo(z, Edge, NN) IN \A c \in C \ Outlets : (nd = {} => F[c] <= lev[c]) /\ lev[c] <= F[c] + Cardinality(C)
=============================================================================
