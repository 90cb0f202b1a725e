---------------------------- MODULE DepHierModel -----------------------------
(* Building the hierarchy and moving water, as transitions.  A flood from   *)
(* the ocean and the pits labels cells and records the lowest pass between  *)
(* each two labels; passes are then merged from low to high, equal ones in  *)
(* any order; finally leaves receive water, which spills in any order.      *)
EXTENDS DepHier
CONSTANTS W, H, Elev, Oceans, Topo, Rain

C == Cells(W, H)
N == Nb(Topo, W, H)
VARIABLES z, oc, phase, lab, to, queue, pass, D, root, own, rained
vars == <<z, oc, phase, lab, to, queue, pass, D, root, own, rained>>
NODEP == -2
Blank == [pit |-> 0, out |-> 0, pelev |-> 0, oelev |-> 0, par |-> NONE, odep |-> NONE, geo |-> NONE,
          l |-> NONE, r |-> NONE, op |-> FALSE, ol |-> <<>>, cc |-> 0, vol |-> 0]
RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<m>> \o AscSeq(S \ {m})

Init == /\ z \in [C -> Elev] /\ oc \in Oceans
        /\ phase = "flood" /\ pass = {} /\ D = <<Blank>> /\ root = <<>> /\ own = <<>> /\ rained = <<>>
        /\ lab = [c \in C |-> IF c \in oc THEN 0 ELSE NODEP]
        /\ to = [c \in C |-> 0]
        /\ queue = AscSeq({c \in oc : N[c] \ oc # {}})
                   \o AscSeq({c \in C \ oc : \A n \in N[c] : z[n] >= z[c]})

\* Of the lowest cells the one queued last comes first.
Front == CHOOSE k \in 1..Len(queue) : \A j \in 1..Len(queue) :
           z[queue[k]] < z[queue[j]] \/ (z[queue[k]] = z[queue[j]] /\ j <= k)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Pair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
\* A pass is <<labels, elevation, cell>>; the lowest one found first is kept.
AddPass(P, q) == IF \E p \in P : p[1] = q[1] /\ p[2] <= q[2] THEN P
                 ELSE {p \in P : p[1] # q[1]} \cup {q}
RECURSIVE AddAll(_, _)
AddAll(P, s) == IF s = <<>> THEN P ELSE AddAll(AddPass(P, Head(s)), Tail(s))

Pop == /\ phase = "flood" /\ queue # <<>>
       /\ LET k == Front
              c == queue[k]
              fresh == lab[c] = NODEP
              l == IF fresh THEN Len(D) ELSE lab[c]
              new == SelectSeq(AscSeq(N[c]), LAMBDA n : lab[n] = NODEP)
              met == SelectSeq(AscSeq(N[c]), LAMBDA n : lab[n] \notin {NODEP, l})
          IN /\ D' = IF fresh THEN Append(D, [Blank EXCEPT !.pit = c, !.pelev = z[c]]) ELSE D
             /\ lab' = [x \in C |-> IF x = c \/ x \in Range(new) THEN l ELSE lab[x]]
             /\ to' = [x \in C |-> IF x \in Range(new) THEN c ELSE to[x]]
             /\ queue' = Without(queue, k) \o new
             /\ pass' = AddAll(pass, [i \in 1..Len(met) |->
                          <<Pair(l, lab[met[i]]), PassElev(z, <<c, met[i]>>), IF z[met[i]] > z[c] THEN met[i] ELSE c>>])
       /\ UNCHANGED <<z, oc, phase, root, own, rained>>
FloodDone == /\ phase = "flood" /\ queue = <<>>
             /\ phase' = "merge" /\ root' = [i \in 1..Len(D) |-> i - 1]
             /\ UNCHANGED <<z, oc, lab, to, queue, pass, D, own, rained>>

RootTo(rt, S, t) == [i \in DOMAIN rt |-> IF rt[i] \in S THEN t ELSE rt[i]]
Merge(p) ==
  /\ phase = "merge" /\ p \in pass /\ \A q \in pass : p[2] <= q[2]
  /\ pass' = pass \ {p}
  /\ LET a == root[p[1][1] + 1]
         b == root[p[1][2] + 1] IN
     IF a = b THEN UNCHANGED <<D, root>>
     ELSE IF a = 0 \/ b = 0
     THEN LET i == IF a = 0 THEN b ELSE a             \* reaches the ocean side
              via == IF a = 0 THEN p[1][1] ELSE p[1][2]
          IN /\ D' = [D EXCEPT ![i + 1].par = via, ![i + 1].geo = via, ![i + 1].op = TRUE,
                               ![i + 1].out = p[3], ![i + 1].oelev = p[2],
                               ![via + 1].ol = Append(@, i)]
             /\ root' = RootTo(root, {i}, 0)
     ELSE LET m == Len(D) IN
          /\ D' = Append([D EXCEPT ![a + 1] = [@ EXCEPT !.par = m, !.odep = b, !.geo = p[1][2], !.out = p[3], !.oelev = p[2]],
                                   ![b + 1] = [@ EXCEPT !.par = m, !.odep = a, !.geo = p[1][1], !.out = p[3], !.oelev = p[2]]],
                         [Blank EXCEPT !.l = a, !.r = b, !.pit = D[a + 1].pit])
          /\ root' = Append(RootTo(root, {a, b}, m), m)
  /\ UNCHANGED <<z, oc, phase, lab, to, queue, own, rained>>

\* Each cell counts towards the first of its ancestors that contains it.
RECURSIVE Holder(_, _)
Holder(i, e) == IF i = 0 \/ e <= At(D, i).oelev THEN i
                ELSE IF At(D, i).op THEN 0 ELSE Holder(At(D, i).par, e)
RECURSIVE Volumes(_, _, _)
Volumes(i, E, acc) ==   \* acc: records with cc, vol and tot, the sum of elevations
  IF i > Len(E) THEN acc
  ELSE LET M == {c \in C : Holder(lab[c], z[c]) = i - 1}
           d == E[i]
           kids == IF d.l = NONE THEN {} ELSE {d.l + 1, d.r + 1}
           cc == Cardinality(M) + SumOver([k \in kids |-> acc[k].cc], kids)
           tot == SumOver(z, M) + SumOver([k \in kids |-> acc[k].tot], kids)
       IN Volumes(i + 1, E, TLCEval(Append(acc, [cc |-> IF i = 1 THEN 0 ELSE cc, tot |-> tot,
                                                 vol |-> IF i = 1 THEN 0 ELSE cc * d.oelev - tot])))
MergeDone == /\ phase = "merge" /\ pass = {}
             /\ phase' = "built"
             /\ D' = LET V == Volumes(1, D, <<>>) IN [i \in 1..Len(D) |-> [D[i] EXCEPT !.cc = V[i].cc, !.vol = V[i].vol]]
             /\ UNCHANGED <<z, oc, lab, to, queue, pass, root, own, rained>>

PutRain == /\ phase = "built" /\ Rain # {}
           /\ \E f \in [Leaves(D) -> Rain] :
                own' = [i \in 1..Len(D) |-> IF IsLeaf(D, i - 1) THEN f[i - 1] ELSE 0]
           /\ rained' = own' /\ phase' = "spill"
           /\ UNCHANGED <<z, oc, lab, to, queue, pass, D, root>>
SpillAny == /\ phase = "spill"
            /\ \E i \in Overfull(D, own) : (IsMeta(D, i) => Full(D, own, i)) /\ own' = Spill(D, own, i)
            /\ UNCHANGED <<z, oc, phase, lab, to, queue, pass, D, root, rained>>
Next == Pop \/ FloodDone \/ (\E p \in pass : Merge(p)) \/ MergeDone \/ PutRain \/ SpillAny
Spec == Init /\ [][Next]_vars

\* ---- properties --------------------------------------------------------------
Built == phase \in {"built", "spill"}
LS == TLCEval(LeafSets(D, 0, <<>>))
HierarchyHolds == phase = "built" =>
  /\ WellFormed(D, C) /\ LinksOk(D) /\ ChildrenOk(D) /\ Rooted(D) /\ OceanSideOk(D)
  /\ LabelsOk(D, lab, oc) /\ LeavesOk(D, z, lab, oc, N)
  /\ LET S == LS
         R == TLCEval(Rims(lab, N))
     IN \A i \in Ids(D) \ {0} : OutletOk(D, z, lab, S, R, i)
VolumesHold == phase = "built" => LET S == LS IN \A i \in Ids(D) \ {0} : VolumeOk(D, z, lab, S, i)
FlowHolds == phase = "built" => FlowOk(D, z, lab, to, oc, N)
WaterConserved == phase = "spill" => SumSeq(own) = SumSeq(rained)
OnlyTheFullSpill == phase = "spill" => \A i \in Ids(D) \ {0} : IsMeta(D, i) /\ own[i + 1] > 0 =>
  Full(D, own, At(D, i).l) /\ Full(D, own, At(D, i).r)
Settled == phase = "spill" /\ Overfull(D, own) = {}
Confluent == Settled => own = Settle(D, rained)
\* Whatever is held sits below its outlet, and the surface of a lake covers
\* exactly cells of that lake.
LevelsBounded == Settled => LET S == LS IN \A i \in Leaves(D) :
  LET k == Lake(D, own, i)
      v == Stored(D, own, k)
      R == Below(D, z, lab, S, k)
      q == LevelOf(z, R, v)
  IN v > 0 => q[1] <= At(D, k).oelev * q[2]
=============================================================================
