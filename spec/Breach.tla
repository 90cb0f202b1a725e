------------------------------- MODULE Breach -------------------------------
(* Depression breaching as a transition system.  A raster scan marks pits   *)
(* (raised to their lowest neighbour); a flood from the edge keeps back     *)
(* links; reaching a pit digs back along the links to lower ground, subject *)
(* to the mode's limits; what is left may be filled along the links.  Ties  *)
(* of the flood are nondeterministic.                                       *)
EXTENDS Fill
CONSTANTS W, H, Elev, Modes, MaxLens, MaxDepths

C == Cells(W, H)
N8 == Nb8(W, H)
N4 == Nb4(W, H)
Edge == EdgeCells(W, H)

VARIABLES topo, mode, fill, maxlen, maxdep, z, dem, pits, open, seen, back, order, left, phase, dug
vars == <<topo, mode, fill, maxlen, maxdep, z, dem, pits, open, seen, back, order, left, phase, dug>>
NN == IF topo = 8 THEN N8 ELSE N4

\* The scan works in place, in row-major order.
RECURSIVE Scan(_, _, _, _)
Scan(c, d, p, nbr) ==
  IF c > W * H THEN <<d, p>>
  ELSE IF c \in Edge THEN Scan(c + 1, d, p, nbr)
  ELSE LET m == SetMin({d[n] : n \in nbr[c]})
       IN IF d[c] <= m THEN Scan(c + 1, [d EXCEPT ![c] = m], p \cup {c}, nbr)
          ELSE Scan(c + 1, d, p, nbr)

Init == /\ topo \in {4, 8}
        /\ mode \in Modes /\ fill \in BOOLEAN /\ maxlen \in MaxLens /\ maxdep \in MaxDepths
        /\ mode = "complete" => ~fill /\ maxlen = SetMin(MaxLens) /\ maxdep = SetMin(MaxDepths)
        /\ z \in {[c \in C |-> IF c \notin Edge THEN f[c] ELSE IF c = 2 THEN 0 ELSE IF c = o THEN 1 ELSE 10 + c] :
                    f \in [C \ Edge -> Elev], o \in Edge \ {2}}
        /\ LET s == Scan(1, z, {}, NN) IN dem = s[1] /\ pits = s[2]
        /\ open = Edge /\ seen = Edge /\ back = [c \in C |-> 0] /\ order = <<>>
        /\ left = Cardinality(pits) /\ phase = "flood" /\ dug = {}

\* The path from a pit back to ground lower than the target, as a sequence.
RECURSIVE PathBack(_, _, _)
PathBack(c, t, acc) == IF c = 0 \/ dem[c] < t THEN acc ELSE PathBack(back[c], t, Append(acc, c))
Range(s) == {s[k] : k \in 1..Len(s)}

Visit(c) ==
  /\ phase = "flood" /\ c \in open /\ \A d \in open : dem[c] <= dem[d]
  /\ LET isPit == c \in pits
         path == IF isPit THEN PathBack(c, dem[c], <<>>) ELSE <<>>
         depth == IF path = <<>> THEN 0 ELSE SetMax({dem[x] - dem[c] : x \in Range(path)})
         digs == isPit /\ (mode = "complete" \/ (Len(path) <= maxlen /\ depth <= maxdep))
         d2 == IF digs THEN [x \in C |-> IF x \in Range(path) THEN dem[c] ELSE dem[x]] ELSE dem
         l2 == left - (IF isPit THEN 1 ELSE 0)
         stop == isPit /\ l2 = 0 /\ ~fill
         fresh == IF stop THEN {} ELSE NN[c] \ seen
     IN /\ dem' = d2 /\ left' = l2
        /\ dug' = IF digs THEN dug \cup {<<c, Range(path), depth>>} ELSE dug
        /\ seen' = seen \cup fresh
        /\ open' = IF stop THEN {} ELSE (open \ {c}) \cup fresh
        /\ back' = [x \in C |-> IF x \in fresh THEN c ELSE back[x]]
        /\ order' = order \o SelectSeq([k \in 1..(W*H) |-> k], LAMBDA k : k \in fresh)
  /\ UNCHANGED <<topo, mode, fill, maxlen, maxdep, z, pits, phase>>

RECURSIVE FloodAlong(_, _)
FloodAlong(s, d) == IF s = <<>> THEN d
                    ELSE FloodAlong(Tail(s), [d EXCEPT ![Head(s)] = Max2(@, d[back[Head(s)]])])
Finish == /\ phase = "flood" /\ open = {}
          /\ dem' = IF fill THEN FloodAlong(order, dem) ELSE dem
          /\ phase' = "done"
          /\ UNCHANGED <<topo, mode, fill, maxlen, maxdep, z, pits, open, seen, back, order, left, dug>>
Next == (\E c \in C : Visit(c)) \/ Finish
Spec == Init /\ [][Next]_vars

Drains(d) == Reach(Edge, TLCEval([a \in C |-> {b \in NN[a] : d[b] >= d[a]}])) = C
DoneDrains == phase = "done" /\ (mode = "complete" \/ fill) => Drains(dem)
\* Without filling a cell is raised only if it was a pit, and then only to the
\* level of its lowest neighbour.
RaisedOnlyPits == ~fill \/ phase = "flood" =>
  \A c \in C : dem[c] > z[c] => c \in pits
EdgesNotRaised == \A c \in Edge : dem[c] <= z[c]
\* A path crosses no ground higher than water has to rise to leave the pit.
LowWay == phase = "done" => LET F == FillTo(z, Edge, NN) IN \A d \in dug : \A x \in d[2] : z[x] <= F[d[1]]
LimitsKept == mode = "selective" => \A d \in dug : Cardinality(d[2]) <= maxlen /\ d[3] <= maxdep
=============================================================================
