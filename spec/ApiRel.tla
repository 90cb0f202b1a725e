------------------------------- MODULE ApiRel --------------------------------
(* What each call of the library has to achieve, as the interfaces to it     *)
(* (Python, programs) show it: relations between what was given and what was *)
(* got, on the numbers the recorder made of them.                            *)
EXTENDS CaseFile, Raster
FI == INSTANCE FillConf
BR == INSTANCE BreachConf
FM == INSTANCE FlowMetricConf
FA == INSTANCE FlowAccumConf
FL == INSTANCE FlatsConf
AT == INSTANCE AttrConf
DH == INSTANCE DepHierConf
FS == INSTANCE FsmConf

(* ---- what each call has to achieve, on the numbers the recorder made of it *)
RelFlats(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      ND == TLCEval({x \in C : c.nd[x] = 1})
      Flat == TLCEval(FL!FlatCells(c.z, ND, E, N))
      Group == TLCEval(Reach(FL!LowEdges(c.z, ND, Flat, N), FL!SameLevel(c.z, ND, N)))
      M == TLCEval(FL!MaskOf(c.z, ND, E, N))
  IN Why(\A x \in C : c.out[x] = c.z[x] + (IF x \in Group /\ x \notin E THEN M[x] ELSE 0), "flats not raised by their mask")
\* a random single direction per cell: what arrives at the ends is what was there
RelRho(c) ==
  LET C == Cells(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      ND == TLCEval({x \in C : c.nd[x] = 1})
      D == TLCEval(C \ ND)
      Dirs == IF c.topo = 8 THEN 1..8 ELSE FM!Straight
      Ends == TLCEval({x \in D : x \in E \/ FM!LowerDirs(c.z, ND, c.w, c.h, x, Dirs) = {}})
  IN Why(\A x \in ND : c.acc[x] = -16, "NoData not marked")
     \cup Why(\A x \in D : c.acc[x] >= 16 * c.wt[x] - 1, "flow below the weight")
     \cup Why(Abs(SumOver(c.acc, Ends) - 16 * SumOver(c.wt, D)) <= 4, "mass not conserved")
RelAttr(c) ==
  LET C == Cells(c.w, c.h)
      ND == TLCEval({x \in C : c.nd[x] = 1})
      D == TLCEval(C \ ND)
      z == TLCEval([x \in C |-> (c.z[x] * c.zs2) \div 2])
      Win == TLCEval([x \in D |-> AT!Window(c.w, c.h, z, ND, x)])
      V == c.out
      Bent(num(_)) == \A x \in D : LET q == 2 * AT!Steep2(Win[x]) IN
                        IF q = 0 THEN V[x] = 0 ELSE Abs(V[x]) <= 1000000000 \div q /\ AT!Close(V[x] * q, 64 * num(Win[x]), 2 * q)
      Faces(x) == LET e == AT!DownEast(Win[x], c.lx, c.ly)
                      s == AT!DownNorth(Win[x], c.lx, c.ly)
                  IN IF e = 0 /\ s = 0 THEN V[x] = -1
                     ELSE V[x] \in 0..360 /\ Abs(c.east[x] * s - c.north[x] * e) <= 2 * (Abs(e) + Abs(s)) /\ c.east[x] * e + c.north[x] * s > 0
  IN Why(\A x \in C : (c.mask[x] = 1) = (x \in ND), "NoData cells")
     \cup Why(CASE c.attr = "slope" -> \A x \in D : AT!RootOf(V[x], AT!Steepness(Win[x], c.lx, c.ly))
                [] c.attr = "curvature" -> \A x \in D : AT!Close(V[x], 64 * AT!Curvature(Win[x]), 2)
                [] c.attr = "planform_curvature" -> Bent(AT!Planform2)
                [] c.attr = "profile_curvature" -> Bent(AT!Profile2)
                [] c.attr = "aspect" -> \A x \in D : Faces(x), "attribute")
RelHier(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      Oc == TLCEval({x \in C : c.oc[x] = 1})
      Rim == TLCEval(DH!Rims(c.lab, N))
  IN DH!JudgeVolumes(c) \cup
     (IF ~DH!WellFormed(c.D, C) THEN {}
      ELSE LET LS == TLCEval(DH!LeafSets(c.D, 0, <<>>)) IN
          Why(DH!LabelsOk(c.D, c.lab, Oc) /\ DH!LinksOk(c.D) /\ DH!ChildrenOk(c.D) /\ DH!Rooted(c.D) /\ DH!OceanSideOk(c.D), "hierarchy")
          \cup Why(DH!LeavesOk(c.D, c.z, c.lab, Oc, N), "leaves")
          \cup Why(\A i \in DH!Ids(c.D) \ {0} : DH!OutletOk(c.D, c.z, c.lab, LS, Rim, i), "outlet"))
\* rd_compare's report on two files, in thousandths
RelCompare(c) ==
  LET n == Len(c.a)
      d == [i \in 1..n |-> Abs(c.a[i] - c.b[i])]
      S == {d[i] : i \in 1..n}
  IN Why(c.max = 1000 * SetMax(S) /\ c.min = 1000 * SetMin(S), "extreme differences")
     \cup Why(Abs(c.avg * n - 1000 * SumSeq(d)) <= n * (2 + c.avg \div 10000), "average difference")
     \cup Why(Abs((c.rms \div 10) * (c.rms \div 10) * n - 10000 * SumSeq([i \in 1..n |-> d[i] * d[i]])) <= n * (4 * (c.rms \div 10) + 20), "RMS difference")
     \cup Why(c.said = c.differ, "differences of metadata reported")
Rel(k) ==
  CASE k.rel = "none" -> {}
    [] k.rel = "fill" -> Why(FI!IsFill(k.z, k.out, k.w, k.h, Nb(k.topo, k.w, k.h)), "not the filled surface")
    [] k.rel = "eps" -> FI!JudgeEps(k)
    [] k.rel = "breach" -> BR!JudgeBreach(k)
    [] k.rel = "flats" -> RelFlats(k)
    [] k.rel = "props" -> FM!JudgeMetric(k)
    [] k.rel = "accum" -> FA!JudgeAccum(k) \cup (IF k.metric = "any" THEN {} ELSE FM!JudgeMetric([k EXCEPT !.p = k.p64]))
    [] k.rel = "rho" -> RelRho(k)
    [] k.rel = "attr" -> RelAttr(k)
    [] k.rel = "hier" -> RelHier(k)
    [] k.rel = "fsm" -> FS!Judge1(k)
    [] k.rel = "compare" -> RelCompare(k)
    [] k.rel = "info" -> Why(k.ok, "rd_info")

=============================================================================
