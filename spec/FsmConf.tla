------------------------------- MODULE FsmConf --------------------------------
(* Fill-Spill-Merge.  Elevations and water are in quarters; the water found *)
(* on each cell afterwards is recorded in thousandths of a quarter.         *)
EXTENDS CaseFile, DepHier
Target(c) ==
  [x \in Cells(c.w, c.h) |-> IF c.fd[x] \in 1..8 THEN Step8(c.w, c.h, x, c.fd[x]) ELSE 0]
\* Water leaving x downhill: what it has and receives beyond its own deficit.
RECURSIVE Flow(_, _, _)
Flow(c, Up, x) == LET in == TLCEval([u \in Up[x] |-> Flow(c, Up, u)])
                  IN Max2(0, c.rain[x] + SumOver(in, Up[x]))
Judge1(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      To == TLCEval(Target(c))
      Up == TLCEval([x \in C |-> {n \in N[x] : To[n] = x}])
      LS == TLCEval(LeafSets(c.D, 0, <<>>))
      Ends == TLCEval({x \in C : To[x] = 0})
      in == TLCEval([x \in Ends |-> Flow(c, Up, x)])
      own0 == TLCEval([i \in 1..Len(c.D) |->
                IF IsLeaf(c.D, i - 1) \/ i = 1 THEN SumOver(in, {x \in Ends : c.lab[x] = i - 1}) ELSE 0])
      own == TLCEval(Settle(c.D, own0))
      lake == TLCEval([i \in Leaves(c.D) |-> Lake(c.D, own, i)])
      Lakes == {lake[i] : i \in Leaves(c.D)}
      Region(k) == {x \in C : c.lab[x] \in LS[k + 1]}
      Expected(k) == LET v == Stored(c.D, own, k)
                         R == TLCEval(Below(c.D, c.z, c.lab, LS, k))
                     IN IF v = 0 THEN [x \in {} |-> 0]
                        ELSE LET q == TLCEval(LevelOf(c.z, R, v)) IN
                             [x \in R |-> Max2(0, (1000 * q[1]) \div q[2] - 1000 * c.z[x])]
  IN IF c.dry
     THEN \* some ground takes up water first: what is left obeys the same laws
       Why(\A x \in C : c.lab[x] = 0 => c.wet[x] <= 0, "water outside depressions")
       \* (taking up water may leave a joint lake too little to stay joined; the
       \* library does not divide it again, so only single lakes are weighed)
       \cup Why((\E k \in Lakes : IsMeta(c.D, k) /\ Stored(c.D, own, k) > 0 /\ \E x \in Region(k) : c.rain[x] < 0)
                \/ Abs(c.left + c.sea - c.total) <= 3 * c.w * c.h, "water lost or made")
       \cup Why(c.sea = 1000 * own[1], "run-off")
       \* (for the same reason only waters that touch are level there)
       \cup Why(\A k \in Lakes : LET soaks == IsMeta(c.D, k) /\ \E x \in Region(k) : c.rain[x] < 0 IN
                  \A x, y \in {x \in Region(k) : c.wet[x] > 2} : (soaks => y \in N[x]) =>
                  Abs((c.wet[x] + 1000 * c.z[x]) - (c.wet[y] + 1000 * c.z[y])) <= 3, "level")
       \cup Why(\A k \in Lakes : \A x \in Region(k) : c.wet[x] > 2 => c.wet[x] + 1000 * c.z[x] <= 1000 * At(c.D, k).oelev + 3, "above outlet")
       \cup Why(\A x \in C : c.wet[x] >= 1000 * Min2(0, c.rain[x]), "dried")
     ELSE
       Why(Abs(c.left + c.sea - c.total) <= 3 * c.w * c.h, "water lost or made")
       \cup Why(c.sea = 1000 * own[1], "run-off")
       \cup Why(\A x \in C : c.lab[x] = 0 => c.wet[x] = 0, "water outside depressions")
       \cup Why(\A k \in Lakes : LET e == TLCEval(Expected(k)) IN
                  \A x \in Region(k) : IF x \in DOMAIN e THEN Abs(c.wet[x] - e[x]) <= 2 ELSE c.wet[x] = 0, "lake level")
       \cup Why(c.again, "a second run from a rearranged start differs")
=============================================================================
