------------------------------- MODULE D8Conf --------------------------------
EXTENDS CaseFile, D8
JudgeD8(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      ND == TLCEval({x \in C : c.nd[x] = 1})
      \* the direction raster that was accumulated
      fd == c.fd
      FND == TLCEval({x \in C : fd[x] = 255})
      To == TLCEval(Target(fd, c.w, c.h, FND))
      Up == TLCEval(Upstream(To, N))
      Line == TLCEval({x \in C : c.ups[x] = 2})
      UpOf == TLCEval(Reach(Line, Upstream(TLCEval([x \in C |-> IF x \in FND \/ fd[x] \notin 1..8 THEN 0 ELSE Step8(c.w, c.h, x, fd[x])]), N)))
  IN IF \E f \in {"fd", "acc", "ups"} : Len(c[f]) # c.w * c.h THEN {"dims"} ELSE
     (IF c.mode = "terrain"
      THEN Why(\A x \in ND : fd[x] = c.fdnd, "NoData direction")
           \cup Why(c.fdnd = 255, "direction NoData value")
           \cup Why(\A x \in C \ ND : D8Ok(c.z, c.w, c.h, x, fd[x], E), "direction")
      ELSE {})
     \cup Why(c.accnd = -1 /\ \A x \in FND : c.acc[x] = c.accnd, "NoData accumulation")
     \cup Why(\A x \in C \ FND : c.acc[x] = 1 + SumOver(c.acc, Up[x]), "accumulation")
     \cup Why(c.w * c.h > 60 \/ \A x \in C \ FND : c.acc[x] = Drains(Up, x), "count")
     \cup Why(IsLine(Line, c.w, c.line[1], c.line[2], c.line[3], c.line[4], N), "line")
     \cup Why(\A x \in C : c.ups[x] = (IF x \in Line THEN 2 ELSE IF x \in UpOf THEN 1 ELSE c.upsnd), "upslope set")
     \cup Why(c.upsnd \notin {1, 2}, "upslope NoData")
=============================================================================
