----------------------------- MODULE DepHierConf -----------------------------
EXTENDS CaseFile, DepHier
\* Hierarchy, labels and flow directions recorded from the library.
Target(c, N) ==
  [x \in Cells(c.w, c.h) |-> IF c.fd[x] = 0 THEN 0 ELSE
      IF c.topo = 8 THEN (IF c.fd[x] \in 1..8 THEN Step8(c.w, c.h, x, c.fd[x]) ELSE -1)
                    ELSE (IF c.fd[x] \in 1..4 THEN Step4(c.w, c.h, x, c.fd[x]) ELSE -1)]
JudgeHierarchy(c) ==
  IF c.refused # c.noocean THEN {"refusal"} ELSE IF c.refused THEN {} ELSE
  LET C == Cells(c.w, c.h)
      N == Nb(c.topo, c.w, c.h)
      Oc == TLCEval({x \in C : c.oc[x] = 1})
      Rim == TLCEval(Rims(c.lab, N))
  IN IF ~WellFormed(c.D, C) THEN {"malformed"}
     ELSE IF ~LabelsOk(c.D, c.lab, Oc) THEN {"labels"}
     ELSE IF ~LinksOk(c.D) \/ ~ChildrenOk(c.D) THEN {"links"}
     ELSE LET LS == TLCEval(LeafSets(c.D, 0, <<>>)) IN
          Why(Rooted(c.D), "cycle")
          \cup Why(OceanSideOk(c.D), "ocean side")
          \cup Why(LeavesOk(c.D, c.z, c.lab, Oc, N), "leaves")
          \cup Why(\A i \in Ids(c.D) \ {0} : OutletOk(c.D, c.z, c.lab, LS, Rim, i), "outlet")
          \cup Why(\A i \in Ids(c.D) : At(c.D, i).dl = i, "own label")
          \cup (IF Rooted(c.D) THEN Why(LastOk(c.D, c.z, c.lab, c.last), "last layer") ELSE {})
JudgeVolumes(c) ==
  IF c.refused # c.noocean THEN {"refusal"} ELSE IF c.refused THEN {} ELSE
  LET C == Cells(c.w, c.h)
      N == Nb(c.topo, c.w, c.h)
      Oc == TLCEval({x \in C : c.oc[x] = 1})
      To == TLCEval(Target(c, N))
  IN IF ~WellFormed(c.D, C) THEN {"malformed"}
     ELSE LET LS == TLCEval(LeafSets(c.D, 0, <<>>)) IN
          Why(c.exact, "volume not a whole number")
          \cup Why(\A i \in Ids(c.D) \ {0} : VolumeOk(c.D, c.z, c.lab, LS, i), "volume")
          \cup Why(\A x \in C : To[x] >= 0, "direction")
          \cup (IF \E x \in C : To[x] < 0 THEN {} ELSE Why(FlowOk(c.D, c.z, c.lab, To, Oc, N), "flow"))
=============================================================================
