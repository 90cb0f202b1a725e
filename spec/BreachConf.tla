----------------------------- MODULE BreachConf -----------------------------
EXTENDS CaseFile, Fill, DigPath
\* One can come from b down to a in steps of at most d, stopping at levels of S.
RECURSIVE Steps(_, _, _, _)
Steps(a, b, S, d) ==
  \/ b - a <= d
  \/ LET T == {s \in S : b - s <= d /\ s < b} IN T # {} /\ Steps(a, SetMin(T), S, d)
JudgeBreach(c) ==
  LET N == Nb(c.topo, c.w, c.h)
      C == Cells(c.w, c.h)
      ND == {x \in C : c.nd[x] = 1}
      D == TLCEval(C \ ND)
      E == EdgeCells(c.w, c.h)
      Out == TLCEval({x \in D : x \in E \/ N[x] \cap ND # {}})
      In == TLCEval(D \ Out)
      z == c.z
      o == c.out
      low == TLCEval([x \in In |-> SetMin({z[n] : n \in N[x]})])
      down == TLCEval([a \in C |-> {b \in N[a] : b \in D /\ o[b] >= o[a]}])
      Pits == {x \in In : z[x] <= low[x]}
      p == CHOOSE x \in Pits : TRUE
      L == Max2(z[p], low[p])
      Lowered == {x \in D : o[x] < z[x]}
      \* how high water has to rise to leave
      F == TLCEval(FillTo([x \in D |-> z[x]], Out, [x \in D |-> N[x] \cap D]))
      Lv == TLCEval([q \in In |-> Max2(z[q], low[q])])
      Dist(a, b) == Max2(Abs(XOf(c.w, a) - XOf(c.w, b)), Abs(YOf(c.w, a) - YOf(c.w, b)))
      \* ... in whole units, when the small steps of an epsilon breach are left aside
      zi == IF "zi" \in DOMAIN c THEN c.zi ELSE z
      Became(x) == IF "oi" \in DOMAIN c THEN <<c.oi[x], c.os[x]>> ELSE <<o[x], 0>>
      Lone == TLCEval(~c.fill /\ Cardinality({zi[x] : x \in D}) = Cardinality(D) /\ Cardinality(Pits) = 1)
      lowi == SetMin({zi[n] : n \in N[p]})
      way == TLCEval(<<p>> \o (LET back == Backs(zi, Out, N, p) IN Way(back, zi, lowi, back[p])))
      dug == TLCEval(Dug(c.mode, c.eps, c.ml, c.mdep, zi, lowi, way))
      At(x) == IF \E k \in 1..Len(way) : way[k] = x THEN dug[CHOOSE k \in 1..Len(way) : way[k] = x] ELSE <<zi[x], 0>>
      Close == c.eps /\ c.mode = "selective" /\ SetMax({zi[way[k]] - lowi : k \in 1..Len(way)}) = c.mdep
      \* the pit, once raised, makes a pit of its lowest neighbour unless that was passed before
      Second == ~c.eps /\ \E m \in N[p] \cap In : zi[m] = lowi /\ m > p
  IN IF Len(o) # c.w * c.h THEN {"dims"} ELSE IF D = {} THEN Why(o = z, "NoData changed") ELSE
     Why(Lone => Second \/ Close \/ \A x \in D : Became(x) = At(x), "the only path") \cup
     Why(\A x \in ND : o[x] = z[x], "NoData changed")
     \* complete, or filled afterwards: everything drains without rising
     \cup Why(c.mode = "complete" \/ c.fill => D \subseteq Reach(Out, down), "does not drain")
     \cup Why(~c.fill => \A x \in D : o[x] > z[x] => x \in In /\ z[x] < low[x] /\ o[x] <= low[x],
              "raised a cell that was no pit")
     \* digging goes down to the level of some pit, no further
     \cup Why(~c.eps /\ ~c.fill /\ c.mode # "constrained" =>
                LET Lev == {Max2(z[q], low[q]) : q \in In}
                IN \A x \in Lowered : o[x] \in Lev, "dug to a level that is no pit's")
     \* digging crosses no ground higher than the water in a pit has to rise
     \cup Why(~c.eps => \A x \in Lowered : \E q \in In :
                F[q] >= z[x] /\ (IF c.fill \/ c.mode = "constrained" THEN Lv[q] <= o[x] ELSE Lv[q] = o[x]), "dug through higher ground than needed")
     \* with a single pit the dug path is known exactly
     \cup Why(c.mode = "selective" /\ ~c.eps /\ Cardinality(Pits) = 1 =>
                \A x \in Lowered : o[x] = L /\ z[x] - L <= c.mdep /\ Dist(x, p) <= c.ml, "selective limits exceeded")
     \cup Why(c.mode = "constrained" /\ ~c.eps /\ Cardinality(Pits) = 1 =>
                \A x \in Lowered : o[x] >= L /\ z[x] - o[x] <= c.mdep /\ Dist(x, p) <= c.ml, "constrained limits exceeded")
     \* each dig of a selective breach stays within the limits
     \cup Why(c.mode = "selective" /\ ~c.eps /\ ~c.fill => \A x \in Lowered :
                /\ \E q \in In : Lv[q] = o[x] /\ Dist(x, q) <= c.ml
                /\ LET Lev == {Lv[q] : q \in In} \cap (o[x] + 1)..(z[x] - 1) IN Steps(o[x], z[x], Lev, c.mdep), "selective limits exceeded")
     \cup Why(c.mode = "selective" /\ c.ml >= c.w * c.h /\ c.mdep > SetMax({zi[x] : x \in D}) - SetMin({zi[x] : x \in D}) => D \subseteq Reach(Out, down), "does not drain though allowed to")
     \cup Why(c.mode = "constrained" /\ ~c.eps => \A x \in Lowered : z[x] - o[x] <= c.mdep, "constrained depth exceeded")
     \cup Why(c.mode # "complete" /\ (c.ml = 0 \/ c.mdep = 0) => Lowered = {} \/ c.eps, "dug though not allowed")
=============================================================================
