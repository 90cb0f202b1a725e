------------------------------ MODULE DepHier -------------------------------
(* The depression hierarchy and the movement of water in it.                *)
(* A hierarchy D is a sequence of records; D[i+1] is depression number i,   *)
(* number 0 is the ocean.  Fields: pit, out (cells), pelev, oelev           *)
(* (elevations), par, odep, geo, l, r (depression numbers or NONE), op      *)
(* (linked to the ocean side), ol (what is linked through this one), cc     *)
(* (cells), vol (volume).  A depression with no children is a leaf; lab     *)
(* gives the leaf (or ocean) of each cell.                                  *)
EXTENDS Raster
NONE == -1
Ids(D) == 0 .. (Len(D) - 1)
At(D, i) == D[i + 1]
IsLeaf(D, i) == i # 0 /\ At(D, i).l = NONE
IsMeta(D, i) == At(D, i).l # NONE
Leaves(D) == {i \in Ids(D) : IsLeaf(D, i)}
Sibling(D, i) == LET p == At(D, At(D, i).par) IN IF p.l = i THEN p.r ELSE p.l

\* Every reference in the hierarchy names something that exists.
WellFormed(D, C) ==
  /\ Len(D) >= 1
  /\ D[1].l = NONE /\ D[1].r = NONE /\ D[1].par = NONE
  /\ \A i \in Ids(D) \ {0} :
        /\ (At(D, i).l = NONE) = (At(D, i).r = NONE)
        /\ At(D, i).l # NONE => At(D, i).l \in 1..(i-1) /\ At(D, i).r \in 1..(i-1) /\ At(D, i).l # At(D, i).r
        /\ At(D, i).par \in Ids(D) /\ At(D, i).geo \in Ids(D)
        /\ At(D, i).odep \in Ids(D) \cup {NONE}
        /\ At(D, i).out \in C
        /\ IsLeaf(D, i) => At(D, i).pit \in C
  /\ \A i \in Ids(D) : \A k \in 1..Len(At(D, i).ol) : At(D, i).ol[k] \in Ids(D) \ {0}

\* The leaves below each depression: a sequence like D.
RECURSIVE LeafSets(_, _, _)
LeafSets(D, i, acc) ==
  IF i = Len(D) THEN acc
  ELSE LeafSets(D, i + 1, TLCEval(Append(acc,
         IF IsMeta(D, i) THEN acc[At(D, i).l + 1] \cup acc[At(D, i).r + 1] ELSE {i})))

Range(s) == {s[k] : k \in 1..Len(s)}

\* ---- the tree --------------------------------------------------------------
\* Two children list their common parent and each other; a depression linked to
\* the ocean side is listed exactly once, by the depression it spills into.
LinksOk(D) ==
  \A i \in Ids(D) \ {0} :
    LET d == At(D, i) IN
    IF d.op
    THEN /\ d.odep = NONE /\ d.par = d.geo
         /\ Cardinality({k \in 1..Len(At(D, d.par).ol) : At(D, d.par).ol[k] = i}) = 1
    ELSE /\ i \in {At(D, d.par).l, At(D, d.par).r}
         /\ d.odep = Sibling(D, i)
ChildrenOk(D) ==
  \A i \in Ids(D) : LET d == At(D, i) IN
    /\ d.l # NONE => \A k \in {d.l, d.r} : At(D, k).par = i /\ ~At(D, k).op
    /\ \A k \in Range(d.ol) : At(D, k).op /\ At(D, k).par = i
    /\ Cardinality(Range(d.ol)) = Len(d.ol)
    /\ d.ol # <<>> => ~IsMeta(D, i)
\* Following parents ends in the ocean.
RECURSIVE Climb(_, _, _)
Climb(D, i, n) == IF i = 0 THEN TRUE ELSE n > 0 /\ Climb(D, At(D, i).par, n - 1)
Rooted(D) == \A i \in Ids(D) : Climb(D, i, Len(D))

\* ---- outlets ---------------------------------------------------------------
\* Adjacent cells of different leaves.
Rims(lab, N) == UNION {{<<a, b>> : b \in {n \in N[a] : lab[n] # lab[a]}} : a \in DOMAIN N}
PassElev(z, p) == Max2(z[p[1]], z[p[2]])
\* The ways out of depression i: from one of its leaves to any other label.
Exits(Rim, lab, LS, i) == {p \in Rim : lab[p[1]] \in LS[i + 1] /\ lab[p[2]] \notin LS[i + 1]}
OutletOk(D, z, lab, LS, Rim, i) ==
  LET d == At(D, i)
      X == Exits(Rim, lab, LS, i)
  IN /\ X # {}
     /\ d.oelev = SetMin({PassElev(z, p) : p \in X})
     /\ z[d.out] = d.oelev
     \* the outlet is the higher cell of a lowest pass to the leaf across it
     /\ \E p \in X : d.out \in {p[1], p[2]} /\ PassElev(z, p) = d.oelev /\ lab[p[2]] = d.geo
     \* children meet at one and the same outlet, each spilling into the other
     /\ ~d.op => d.geo \in LS[Sibling(D, i) + 1] /\ d.out = At(D, Sibling(D, i)).out
     /\ IsMeta(D, i) => At(D, d.l).oelev <= d.oelev
\* What is linked to the ocean side is not lower than what it spills into.
OceanSideOk(D) == \A i \in Ids(D) \ {0} :
  At(D, i).op /\ At(D, i).geo # 0 => At(D, At(D, i).geo).oelev <= At(D, i).oelev

\* ---- leaves and flow -------------------------------------------------------
\* Connected level patches of land with no lower neighbour.
Bottoms(z, Land, N) ==
  {P \in Components(Land, TLCEval([c \in DOMAIN N |-> {n \in N[c] : n \in Land /\ z[n] = z[c]}])) :
     \A c \in P : \A n \in N[c] : z[n] >= z[c]}
LeavesOk(D, z, lab, Oc, N) ==
  LET Land == DOMAIN N \ Oc
      B == TLCEval(Bottoms(z, Land, N))
      Pits == {At(D, i).pit : i \in Leaves(D)}
  IN /\ \A i \in Leaves(D) : lab[At(D, i).pit] = i /\ At(D, i).pelev = z[At(D, i).pit]
     /\ \A i \in Leaves(D) : \E P \in B : At(D, i).pit \in P
     /\ \A P \in B : /\ Cardinality(P \cap Pits) <= 1
                     \* (a patch level with the ocean may drain straight into it)
                     /\ (P \cap Pits = {} => \E c \in P : \E n \in N[c] \cap Oc : z[n] = z[c])
LabelsOk(D, lab, Oc) ==
  /\ \A c \in Oc : lab[c] = 0
  /\ \A c \in DOMAIN lab : lab[c] = 0 \/ lab[c] \in Leaves(D)
\* Flow: every cell but pits and the ocean passes water to a lowest neighbour,
\* of its own label, and ends at its leaf's pit or the ocean.
FlowOk(D, z, lab, To, Oc, N) ==
  LET Ends == Oc \cup {At(D, i).pit : i \in Leaves(D)}
      Up == TLCEval([c \in DOMAIN N |-> {n \in N[c] : To[n] = c}])
  IN /\ \A c \in Ends : To[c] = 0
     /\ \A c \in DOMAIN N \ Ends :
          /\ To[c] # 0
          /\ lab[To[c]] = lab[c]
          /\ z[To[c]] <= z[c]
          /\ z[To[c]] = SetMin({z[n] : n \in N[c]})
     /\ Reach(Ends, Up) = DOMAIN N

\* ---- volumes ---------------------------------------------------------------
Below(D, z, lab, LS, i) == {c \in DOMAIN lab : lab[c] \in LS[i + 1] /\ z[c] <= At(D, i).oelev}
VolumeOk(D, z, lab, LS, i) ==
  LET d == At(D, i)
      B == TLCEval(Below(D, z, lab, LS, i))
  IN /\ d.cc = Cardinality(B)
     /\ d.vol = d.cc * d.oelev - SumOver(z, B)
     /\ d.vol >= 0
     /\ IsMeta(D, i) => At(D, d.l).vol + At(D, d.r).vol <= d.vol

\* ---- water -----------------------------------------------------------------
\* A water state is a sequence like D: the water a leaf holds, or what a parent
\* holds above its two full children; entry 1 is what reached the ocean.
Room(D, i) == IF i = 0 THEN 0 ELSE
              IF IsMeta(D, i) THEN At(D, i).vol - At(D, At(D, i).l).vol - At(D, At(D, i).r).vol ELSE At(D, i).vol
RECURSIVE Full(_, _, _)
Full(D, own, i) == /\ own[i + 1] >= Room(D, i)
                   /\ IsMeta(D, i) => Full(D, own, At(D, i).l) /\ Full(D, own, At(D, i).r)
Overfull(D, own) == {i \in Ids(D) \ {0} : own[i + 1] > Room(D, i)}
\* A full depression passes what it cannot hold: over its outlet into the leaf
\* beyond, unless its sibling is full too, when the parent rises.
SpillsTo(D, own, i) ==
  LET d == At(D, i) IN IF d.op \/ ~Full(D, own, d.odep) THEN d.geo ELSE d.par
Spill(D, own, i) ==
  LET x == own[i + 1] - Room(D, i)
      t == SpillsTo(D, own, i)
  IN [own EXCEPT ![i + 1] = @ - x, ![t + 1] = @ + x]
RECURSIVE Settle(_, _)
Settle(D, own) ==
  LET O == {i \in Overfull(D, own) : IsMeta(D, i) => Full(D, own, i)}
  IN IF O = {} THEN own ELSE Settle(D, TLCEval(Spill(D, own, SetMin(O))))
\* The depression whose surface covers leaf i: the highest ancestor whose
\* children are both full.
RECURSIVE Lake(_, _, _)
Lake(D, own, i) ==
  LET d == At(D, i) IN
  IF d.op THEN i
  ELSE IF Full(D, own, i) /\ Full(D, own, d.odep) THEN Lake(D, own, d.par) ELSE i
Stored(D, own, i) == own[i + 1] + (IF IsMeta(D, i) THEN At(D, At(D, i).l).vol + At(D, At(D, i).r).vol ELSE 0)
\* Level of volume v poured over cells R, times k: <<numerator, cells>>.
LevelOf(z, R, v) ==
  LET T == {z[c] : c \in R}
      Fits(t) == LET S == {c \in R : z[c] <= t}
                     m == v + SumOver(z, S)
                     Hi == {u \in T : u > t}
                 IN m >= t * Cardinality(S) /\ (Hi = {} \/ m <= SetMin(Hi) * Cardinality(S))
      t == CHOOSE t \in T : Fits(t)
      S == {c \in R : z[c] <= t}
  IN <<v + SumOver(z, S), Cardinality(S)>>
\* ---- the last layer ---------------------------------------------------------
\* Below the outlet of its depression, or of one that contains or receives it.
RECURSIVE Sunk(_, _, _)
Sunk(D, i, e) == i # 0 /\ (e < At(D, i).oelev \/ Sunk(D, At(D, i).par, e))
LastOk(D, z, lab, last) == \A c \in DOMAIN z : last[c] = (IF Sunk(D, lab[c], z[c]) THEN 1 ELSE 0)
=============================================================================
