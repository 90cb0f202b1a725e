------------------------------- MODULE DInfConf ------------------------------
EXTENDS CaseFile, DInf
JudgeDInf(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      a == c.ang
      ND == TLCEval({x \in C : a[x] = -1})
      \* received by x from its neighbour in direction n, in sixteenths
      In(x) == {n \in 1..8 : LET u == Step8(c.w, c.h, x, n) IN
                   u # 0 /\ a[u] > 0 /\ ShareOf(a[u], Inverse8(n)) > 0}
      Got(x) == [n \in In(x) |-> LET u == Step8(c.w, c.h, x, n) IN (ShareOf(a[u], Inverse8(n)) * c.acc[u] + 5000) \div 10000]
      Tol(x) == 3 + SumOver([n \in In(x) |-> Abs(c.acc[Step8(c.w, c.h, x, n)]) \div 8000 + 2], In(x))
  IN IF Len(a) # c.w * c.h \/ Len(c.acc) # c.w * c.h THEN {"dims"}
     ELSE IF \E x \in C : a[x] < -1 \/ a[x] > 80000 THEN {"not an angle"}
     ELSE IF \E x \in C : c.acc[x] > 200000 \/ c.acc[x] < -16 THEN {"absurd value"}
     ELSE
     (IF c.mode = "terrain"
      THEN Why(ND = {x \in C : c.nd[x] = 1}, "NoData direction")
           \cup Why(\A x \in E \ ND : a[x] > 0 /\ a[x] % 10000 = 0 /\ Step8(c.w, c.h, x, DirOf((a[x] \div 10000) % 8)) = 0, "edge direction")
           \cup Why(\A x \in C \ (E \cup ND) : AngleOk(c.z, c.w, c.h, x, a[x]), "direction")
      ELSE {})
     \cup Why(\A x \in ND : c.acc[x] = 16 * c.accnd, "NoData accumulation")
     \cup Why(c.accnd = -1, "accumulation NoData value")
     \cup Why(\A x \in C \ ND : Abs(c.acc[x] - 16 - SumOver(Got(x), In(x))) <= Tol(x), "accumulation")
=============================================================================
