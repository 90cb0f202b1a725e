-------------------------------- MODULE DInf ---------------------------------
(* D-infinity.  Angles are measured counterclockwise from east, in units of  *)
(* 1/10000 of an eighth of a turn, 1..80000; 0 means no flow.                *)
EXTENDS FlowMetric
\* eighths of a turn of a direction (5 = east, 3 = north, 1 = west, 7 = south)
Eighth(n) == (5 - n) % 8
DirOf(e) == ((4 - (e % 8)) % 8) + 1
Near(a, b, tol) == LET d == (a - b) % 80000 IN d <= tol \/ d >= 80000 - tol
\* Angles a descending cell may get: on a steepest facet, at its angle.
\* NoData cells count with their value here (very low as a rule).
FacetAngle(z, w, h, x, f) ==
  LET s == Eighth(f[1])
      turn == IF (Eighth(f[2]) - s) % 8 = 1 THEN 1 ELSE -1
  IN (s * 10000 + turn * DiagShare(z, w, h, x, f)) % 80000
AngleOk(z, w, h, x, a) ==
  LET B == TLCEval(BestFacets(z, {}, w, h, x))
  IN IF B = {} THEN a = 0
     ELSE a > 0 /\ \E f \in B : Near(a, FacetAngle(z, w, h, x, f), 8)
\* Shares (1/10000) of each direction for an angle
ShareOf(a, n) ==
  LET k == (a % 80000) \div 10000
      f == a % 10000
  IN IF DirOf(k) = n THEN 10000 - f ELSE IF DirOf(k + 1) = n THEN f ELSE 0
=============================================================================
