---------------------------- MODULE FlowAccumConf ----------------------------
(* Recorded accumulations: at every data cell own weight plus received      *)
(* shares (the equation Solves of FlowAccum), in sixteenths, with shares in *)
(* units of 1/4096; the tolerance covers their rounding only.               *)
EXTENDS CaseFile, Raster
SH == 4096
JudgeAccum(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      P(x, n) == c.p[9 * (x - 1) + 1 + n]
      ND == TLCEval({x \in C : P(x, 0) = -2})
      D == C \ ND
      \* flow received by x from neighbour u, in sixteenths
      \* direction from the neighbour towards x: inverse of the direction to it
      Dirs(x) == {n \in 1..8 : Step8(c.w, c.h, x, n) # 0 /\ Step8(c.w, c.h, x, n) \notin ND
                               /\ P(Step8(c.w, c.h, x, n), Inverse8(n)) > 0}
      From(x) == [n \in Dirs(x) |-> LET u == Step8(c.w, c.h, x, n) IN (P(u, Inverse8(n)) * c.acc[u] + SH \div 2) \div SH]
      Tol(x) == 3 + Cardinality(Dirs(x)) + SumOver([n \in Dirs(x) |->
                    IF P(Step8(c.w, c.h, x, n), Inverse8(n)) % 512 = 0 THEN 0
                    ELSE Abs(c.acc[Step8(c.w, c.h, x, n)]) \div 8000 + 1], Dirs(x))
      Big == \E x \in C : c.acc[x] > 400000 \/ c.acc[x] < -16
      Ends == {x \in D : \A n \in 1..8 : P(x, n) <= 0}
  IN IF Len(c.acc) # c.w * c.h \/ Len(c.p) # 9 * c.w * c.h THEN {"dims"}
     ELSE IF Big THEN {"absurd value"}
     ELSE Why(\A x \in ND : c.acc[x] = 16 * c.accnd, "NoData not marked")
     \cup Why(c.accnd = -1, "NoData value")
     \cup Why(\A x \in D : Abs(c.acc[x] - 16 * c.wt[x] - SumOver(From(x), Dirs(x))) <= Tol(x), "does not add up")
     \cup Why(ND # {} \/ Abs(SumOver(c.acc, Ends) - 16 * SumSeq(c.wt)) <= 2 + Cardinality(C) \div 2 + SumSeq(c.wt) \div 16, "mass not conserved")
     \* whole flows of large weights: the multiples of 2^30, exactly
     \cup Why(c.wh = <<>> \/ (Len(c.acch) = Cardinality(C) /\ \A x \in D : c.acch[x] = c.wh[x] + SumOver([n \in Dirs(x) |-> c.acch[Step8(c.w, c.h, x, n)]], Dirs(x))), "large values lose precision")
     \cup Why(c.same, "FA differs from FM + accumulation")
     \cup Why(c.refused, "mismatched dimensions accepted")
=============================================================================
