--------------------------- MODULE FlowMetricConf ---------------------------
(* Recorded flow proportions against the metrics' definitions.              *)
EXTENDS CaseFile, FlowMetric
JudgeMetric(c) ==
  LET C == Cells(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      ND == TLCEval({x \in C : c.nd[x] = 1})
      Fl(x) == c.p[9 * (x - 1) + 1]
      Sh(x) == [n \in 1..8 |-> c.p[9 * (x - 1) + 1 + n]]
  IN IF Len(c.p) # 9 * c.w * c.h THEN {"dims"} ELSE
     Why(\A x \in ND : Fl(x) = -2 /\ Sharing(Sh(x)) = {}, "NoData not marked")
     \cup Why(\A x \in C \ ND : Fl(x) \in {0, -1} /\ \A n \in 1..8 : Sh(x)[n] >= -1 /\ Sh(x)[n] <= U, "bad flag or share")
     \cup Why(\A x \in C \ ND : CommonRule(c.z, ND, c.w, c.h, x, Fl(x), Sh(x)), "shares")
     \cup Why(\A x \in E \ ND : Fl(x) = -1, "edge cell passes flow")
     \cup Why(\A x \in C \ (E \cup ND) : MetricRule(c.metric, c.xp, c.z, ND, c.w, c.h, x, Fl(x), Sh(x)), "metric")
=============================================================================
