----------------------------- MODULE FlowMetric -----------------------------
(* Flow metrics: how a cell divides its flow among its neighbours.           *)
(* Elevations are integers; shares are integers in units of 1/U.  All        *)
(* directions are in the 8-neighbour numbering, whatever the metric's own    *)
(* connectivity.                                                            *)
EXTENDS Raster
U == 65536

Drop(z, w, h, x, n) == z[x] - z[Step8(w, h, x, n)]
\* Directions in which a data cell x has a strictly lower data neighbour.
LowerDirs(z, ND, w, h, x, Dirs) ==
  {n \in Dirs : LET t == Step8(w, h, x, n) IN t # 0 /\ t \notin ND /\ z[t] < z[x]}
Straight == {1, 3, 5, 7}

\* Directions of greatest drop.
LowestDirs(z, w, h, x, L) == {n \in L : \A m \in L : Drop(z, w, h, x, m) <= Drop(z, w, h, x, n)}

(* Randomised single-direction metrics: the slope of some directions is      *)
(* multiplied by a random factor; any direction that some draw can make the  *)
(* greatest may be chosen.                                                   *)
\* Rho8: diagonal slopes by a factor in [1/2, 1)
Rho8Dirs(z, w, h, x, L) ==
  {n \in L : \A m \in L \ {n} :
     LET d == Drop(z, w, h, x, n)
         e == Drop(z, w, h, x, m)
         least == IF Diagonal8(m) THEN e ELSE 2 * e       \* twice the least slope m can have
     IN IF Diagonal8(n) THEN 2 * d > least ELSE 2 * d >= least}
\* Rho4: north and south slopes by a factor anywhere in (0, infinity)
Rho4Dirs(z, w, h, x, L) ==
  {n \in L : n \in {3, 7} \/ \A m \in L \cap {1, 5} : Drop(z, w, h, x, m) <= Drop(z, w, h, x, n)}

(* Multiple directions: shares in proportion to (L * slope) ^ p.  The        *)
(* weight of a drop, as an integer proportional to it (tolerances below      *)
(* cover the rounding of sqrt 2).                                            *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Weight(metric, p, n, d) ==
  IF metric = "freeman" THEN
       (IF p = "one" THEN (IF Diagonal8(n) THEN 707 ELSE 1000) * d
        ELSE IF p = "two" THEN (IF Diagonal8(n) THEN 1 ELSE 2) * d * d
        ELSE IF p = "four" THEN (IF Diagonal8(n) THEN 1 ELSE 4) * Pow(d, 4)
        ELSE (IF Diagonal8(n) THEN 12 ELSE 17) * d)     \* "half": the square of the share goes with this
  ELSE (IF p = "one" THEN (IF Diagonal8(n) THEN 501 ELSE 1000) * d
        ELSE IF p = "two" THEN (IF Diagonal8(n) THEN 1 ELSE 4) * d * d
        ELSE IF p = "four" THEN (IF Diagonal8(n) THEN 1 ELSE 16) * Pow(d, 4)
        ELSE (IF Diagonal8(n) THEN 10 ELSE 20) * d)
Proportional(metric, p, z, w, h, x, L, s) ==
  IF p \in {"one", "two", "four"} THEN
    LET W == TLCEval([n \in L |-> Weight(metric, p, n, Drop(z, w, h, x, n))])
        T == SumOver(W, L)
    IN \A n \in L : Abs((s[n] \div 16) * T - W[n] * 4096) <= 20 * T
  ELSE IF p = "half" THEN
    LET W == [n \in L |-> Weight(metric, p, n, Drop(z, w, h, x, n))]
        q == [n \in L |-> s[n] \div 64]
    IN \A n, m \in L : Abs(q[n] * q[n] * W[m] - q[m] * q[m] * W[n])
                         <= (3 * q[n] + 3) * W[m] + (3 * q[m] + 3) * W[n] + (q[n] * q[n] * W[m]) \div 100
  ELSE \* any other positive exponent: steeper never gets less
    LET G == [n \in L |-> Weight(metric, "two", n, Drop(z, w, h, x, n))]
    IN \A n, m \in L : 100 * G[n] > 101 * G[m] => s[n] + 2 >= s[m]

(* D-infinity: eight triangular facets, each between a straight (e1) and a   *)
(* diagonal (e2) neighbour; flow follows the steepest facet's slope and is   *)
(* split between its two neighbours by the angle to each.                    *)
Facets == {<<1, 2>>, <<3, 2>>, <<3, 4>>, <<5, 4>>, <<5, 6>>, <<7, 6>>, <<7, 8>>, <<1, 8>>}
\* Twice the squared slope along a facet; 0 when it does not descend.
FacetSteep(z, w, h, x, f) ==
  LET e1 == z[Step8(w, h, x, f[1])]
      e2 == z[Step8(w, h, x, f[2])]
      s1 == z[x] - e1
      s2 == e1 - e2
  IN IF s2 <= 0 THEN (IF s1 > 0 THEN 2 * s1 * s1 ELSE 0)
     ELSE IF s2 >= s1 THEN (IF z[x] > e2 THEN (z[x] - e2) * (z[x] - e2) ELSE 0)
     ELSE 2 * (s1 * s1 + s2 * s2)
UsableFacets(ND, w, h, x) ==
  {f \in Facets : \A k \in {1, 2} : LET t == Step8(w, h, x, f[k]) IN t # 0 /\ t \notin ND}
BestFacets(z, ND, w, h, x) ==
  LET F == UsableFacets(ND, w, h, x)
      S == TLCEval([f \in F |-> FacetSteep(z, w, h, x, f)])
  IN {f \in F : S[f] > 0 /\ \A g \in F : S[g] <= S[f]}
\* arctan(a/b), 0 < a < b, in units of 1/10000 of an eighth of a turn
ATan8(a, b) ==
  LET t == (a * 10000) \div b
      t2 == (t * t) \div 10000
      p == 9999 - (3303 * t2) \div 10000
      t4 == (t2 * t2) \div 10000
      p2 == p + (1801 * t4) \div 10000
      t6 == (t4 * t2) \div 10000
      p3 == p2 - (851 * t6) \div 10000
      t8 == (t4 * t4) \div 10000
      p4 == p3 + (208 * t8) \div 10000
  IN ((t * p4) \div 7854)
\* Share (1/10000) of the diagonal neighbour of facet f.
DiagShare(z, w, h, x, f) ==
  LET e1 == z[Step8(w, h, x, f[1])]
      s1 == z[x] - e1
      s2 == e1 - z[Step8(w, h, x, f[2])]
  IN IF s2 <= 0 THEN 0 ELSE IF s2 >= s1 THEN 10000 ELSE ATan8(s2, s1)
FacetShares(z, w, h, x, s, T) ==
  \E f \in T : LET d == DiagShare(z, w, h, x, f) IN
    /\ \A n \in 1..8 : s[n] > 0 => n \in {f[1], f[2]}
    /\ Abs((IF s[f[2]] > 0 THEN s[f[2]] ELSE 0) - (d * 8192) \div 1250) <= 200

(* The rule of one data cell x with shares s (0 = flag, 1..8) under a metric *)
Sharing(s) == {n \in 1..8 : s[n] > 0}
CommonRule(z, ND, w, h, x, flag, s) ==
  LET T == Sharing(s)
  IN IF flag = -1 THEN T = {}
     ELSE /\ flag = 0 /\ T # {}
          /\ T \subseteq LowerDirs(z, ND, w, h, x, 1..8)
          /\ Abs(SumOver(s, T) - U) <= 12
MetricRule(metric, p, z, ND, w, h, x, flag, s) ==
  LET four == metric \in {"d4", "rho4"}
      L == TLCEval(LowerDirs(z, ND, w, h, x, IF four THEN Straight ELSE 1..8))
      T == Sharing(s)
  IN CASE metric \in {"d8", "d4"} -> /\ (flag = 0) = (L # {})
                                     /\ L # {} => \E n \in LowestDirs(z, w, h, x, L) : T = {n}
       [] metric = "rho8" -> /\ (flag = 0) = (L # {})
                             /\ L # {} => \E n \in Rho8Dirs(z, w, h, x, L) : T = {n}
       [] metric = "rho4" -> /\ (flag = 0) = (L # {})
                             /\ L # {} => \E n \in Rho4Dirs(z, w, h, x, L) : T = {n}
       [] metric \in {"freeman", "holmgren"} ->
                             /\ (flag = 0) = (L # {})
                             /\ L # {} => T = L /\ Proportional(metric, p, z, w, h, x, L, s)
       [] metric = "dinf" -> LET B == TLCEval(BestFacets(z, ND, w, h, x)) IN
                             /\ (flag = 0) = (B # {})
                             /\ B # {} => FacetShares(z, w, h, x, s, B)
=============================================================================
