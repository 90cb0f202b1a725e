------------------------------ MODULE FillConf ------------------------------
(* Recorded results of the flooding family against the specification.       *)
EXTENDS CaseFile, Fill

\* C01: every variant's result is the filled surface.
JudgeFill(c) ==
  LET N == Nb(c.topo, c.w, c.h)
      Outs == {c.outs[k] : k \in 1..Len(c.outs)}
      Bad == {W \in Outs : ~IsFill(c.z, W, c.w, c.h, N)}
  IN {c.names[k] : k \in {k \in 1..Len(c.outs) : c.outs[k] \in Bad}}

\* C02.  Elevations count representable steps; -1 is NoData.
JudgeEps(c) ==
  LET N == Nb(c.topo, c.w, c.h)
      C == Cells(c.w, c.h)
      E == EdgeCells(c.w, c.h)
      ND == {x \in C : c.z[x] = -1}
      O == TLCEval(E \cup ND)
      W == c.out
      F == FillTo(c.z, E, N)
  IN IF Len(W) # c.w * c.h THEN {"dims"} ELSE
     Why(\A x \in C : W[x] >= c.z[x], "lowered")
     \cup Why(\A x \in O : W[x] = c.z[x], "edge or NoData cell changed")
     \cup Why(\A x \in C \ O : \E n \in N[x] : W[n] < W[x], "does not drain")
     \cup Why(\A x \in C \ O : W[x] = c.z[x] \/ \E n \in N[x] : W[x] = W[n] + 1, "raised by more than a step")
     \cup Why(\A x \in C \ O : W[x] <= F[x] + Cardinality(C), "raised above the fill level")
     \cup Why(c.refused /\ c.intact, "integer raster not refused")

\* C03
JudgeMask(c) ==
  LET N == Nb(c.topo, c.w, c.h)
      C == Cells(c.w, c.h)
      F == FillOf(c.z, c.w, c.h, N)
      Raised == TLCEval({x \in C : F[x] > c.z[x]})
      ND == {x \in C : c.nd[x] = 1}
      K == Components(Raised, N)
      Small == UNION {S \in K : Cardinality(S) <= c.k}
  IN Why(c.has = (Raised # {}), "HasDepressions")
     \cup Why(~c.hasfilled, "HasDepressions after filling")
     \cup Why(Len(c.mask) = c.w * c.h /\ \A x \in C : c.mask[x] =
               (IF x \in ND THEN c.pmnd ELSE IF x \in Raised THEN 1 ELSE 0), "pit_mask")
     \cup Why(c.pmnd \notin {0, 1}, "pit_mask NoData")
     \cup Why(Len(c.lim) = c.w * c.h /\ \A x \in C : c.lim[x] =
               (IF x \in Small THEN F[x] ELSE c.z[x]), "max_dep")

\* C04.  A label region is one tree of the flood: it holds exactly one edge
\* data cell, or none and then starts beside NoData, and inside the region
\* every cell is reached from there at its filled level.
GoodLabels(c, L, F, N, E, ND) ==
  LET C == Cells(c.w, c.h)
      D == TLCEval(C \ ND)
      Seeds == TLCEval({x \in D : x \in E \/ N[x] \cap ND # {}})
      S == TLCEval([x \in C |-> {n \in N[x] : L[n] = L[x] /\ F[n] = Max2(c.z[n], F[x])}])
  IN Why(Len(L) = c.w * c.h /\ \A x \in D : L[x] # c.labnd, "unlabelled data cell")
     \cup Why(\A x, y \in E \cap D : x # y => L[x] # L[y], "edge outlets share a label")
     \cup Why(\A l \in {L[x] : x \in D} :
                LET K == {x \in C : L[x] = l}
                    R == {x \in K : x \in E \cap D}
                    From == IF R # {} THEN R ELSE K \cap Seeds
                IN From # {} /\ K \subseteq Reach(From, S), "label region")
GoodDirs(c, F, N, E, ND) ==
  LET C == Cells(c.w, c.h)
      To == TLCEval([x \in C |-> IF c.fd[x] \in 1..8 THEN Step8(c.w, c.h, x, c.fd[x]) ELSE -1])
      \* upstream edges: who points at x
      Out == TLCEval({x \in C : To[x] = 0})
      Up == TLCEval([x \in C |-> {n \in N[x] : To[n] = x}])
      UpFlat == TLCEval([x \in C |-> {n \in N[x] : To[n] = x /\ F[n] = Max2(c.z[n], F[x])}])
      Data == TLCEval(C \ ND)
  IN Why(Len(c.fd) = c.w * c.h, "flowdirs dims")
     \cup Why(Out \subseteq E, "interior cell sent off the raster")
     \cup Why(\A x \in ND \ E : c.fd[x] = c.fdnd, "NoData direction")
     \* everything drains off the raster (or into NoData), along a path of least height
     \cup Why(Data \subseteq Reach(Out \cup ND, Up), "does not drain")
     \cup Why(Data \subseteq Reach(Out \cup ND, UpFlat), "not the lowest path")
JudgeWsd(c) ==
  LET N == Nb(c.topo, c.w, c.h)
      N8 == Nb8(c.w, c.h)
      C == Cells(c.w, c.h)
      E == EdgeCells(c.w, c.h)
      ND == TLCEval({x \in C : c.nd[x] = 1})
      F == FillOf(c.z, c.w, c.h, N)
      F8 == IF c.topo = 8 THEN F ELSE FillOf(c.z, c.w, c.h, N8)
  IN Why(\A x \in C : c.alt1[x] = F[x], "altered elevations")
     \cup Why(c.alt2 = c.z, "elevations not to be altered")
     \cup Why(c.lab1 = c.lab2, "labels depend on altering")
     \cup GoodLabels(c, c.lab1, F, N, E, ND)
     \cup GoodDirs(c, F8, N8, E, ND)
=============================================================================
