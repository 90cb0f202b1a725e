------------------------------ MODULE AttrConf -----------------------------
(* Recorded fills, perimeters and terrain attributes judged by definition.   *)
EXTENDS CaseFile, RegionFill, TerrainAttr
JudgeRegion(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb(c.topo, c.w, c.h)
      Seeds == IF c.edges THEN EdgeCells(c.w, c.h) ELSE {c.seeds[i] + 1 : i \in 1..Len(c.seeds)}
      P == TLCEval(Painted(c.K, c.S0, c.v, c.s, Seeds, N))
      ND == TLCEval({x \in C : c.K[x] = c.v})
  IN IF Len(c.S) # c.w * c.h THEN {"dims"} ELSE
     Why(\A x \in C : c.S[x] = c.S0[x] => P[x] = c.S0[x], "a connected cell was not painted")
     \cup Why(\A x \in C : c.S[x] # c.S0[x] => c.S[x] = P[x], "a cell was painted that should not be")
     \cup Why(c.kept, "the checked raster changed")
     \cup Why(c.edges \/ c.left = 0, "seeds left over")
     \cup Why(c.refused, "rasters of different shapes accepted")
     \cup Why(c.count = 16 * Cardinality(ExposedCells(c.w, c.h, ND)), "exposed cells")
     \cup Why(c.len = 16 * EdgeLength(c.w, c.h, ND, c.lx, c.ly), "length of exposed edges")

Close(a, b, tol) == a <= b + tol /\ b <= a + tol
\* a = sqrt(4096 q) up to two units
RootOf(a, q) == LET s == Isqrt(4096 * q) IN a >= s - 2 /\ a <= s + 3
RECURSIVE AreaTo(_, _)
AreaTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + AreaTo(f, n - 1)
JudgeAttr(c) ==
  LET C == Cells(c.w, c.h)
      n == c.w * c.h
      ND == TLCEval({x \in C : c.nd[x] = 1})
      D == TLCEval(C \ ND)
      z == TLCEval([x \in C |-> (c.z[x] * c.zs2) \div 2])
      Win == TLCEval([x \in D |-> Window(c.w, c.h, z, ND, x)])
      Steep == TLCEval([x \in D |-> Steepness(Win[x], c.lx, c.ly)])
      V(k) == c.vals[k]
      Bad(k) == \/ Len(c.masks[k]) # n
                \/ \E x \in C : (c.masks[k][x] = 1) # (x \in ND)
      Slope(k) == \A x \in D : RootOf(V(k)[x], Steep[x])
      Faces(x) == LET e == DownEast(Win[x], c.lx, c.ly)
                      s == DownNorth(Win[x], c.lx, c.ly)
                  IN IF e = 0 /\ s = 0 THEN V(8)[x] = -1
                     ELSE /\ V(8)[x] # -1 /\ V(8)[x] \in 0..360
                          /\ Abs(c.east[x] * s - c.north[x] * e) <= 2 * (Abs(e) + Abs(s))
                          /\ c.east[x] * e + c.north[x] * s > 0
      Bent(k, num(_)) == \A x \in D : LET q == 2 * Steep2(Win[x]) IN
                           IF q = 0 THEN V(k)[x] = 0
                           ELSE Abs(V(k)[x]) <= 1000000000 \div q /\ Close(V(k)[x] * q, 64 * num(Win[x]), 2 * q)
      \* surface area: eight triangles of each cell, rounded down
      Tri == TLCEval([x \in C |-> IF x \in ND THEN 0
                       ELSE AreaTo([t \in 1..8 |-> Isqrt(Triangle(Win[x], c.lx, c.ly, Spokes[t]) * c.scale * c.scale)], 8)])
      Area == AreaTo(Tri, n)
      \* wetness
      Have(x) == c.acc[x] >= 0 /\ c.slope[x] >= 0
  IN IF \E k \in 1..8 : Len(V(k)) # n THEN {"dims"} ELSE IF ~c.props \/ ~c.props2 THEN {"size, place or projection"} ELSE
     UNION {Why(~Bad(k), "NoData cells of " \o c.names[k]) : k \in 1..8}
     \cup UNION {Why(Slope(k), "slope: " \o c.names[k]) : k \in 1..4}
     \cup Why(\A x \in D : Close(V(5)[x], 64 * Curvature(Win[x]), 2), "curvature")
     \cup Why(Bent(6, Planform2), "planform curvature")
     \cup Why(Bent(7, Profile2), "profile curvature")
     \cup Why(\A x \in D : Faces(x), "aspect")
     \cup Why(c.area >= Area - 1 /\ c.area <= Area + 8 * Cardinality(D) + 1, "surface area")
     \cup Why(\A x \in C : LET e == c.acc[x] * (c.slope[x] + 1) IN
                IF Have(x) THEN Close(c.spi[x], e, 1 + e \div 100000) ELSE c.spi[x] = -1, "SPI")
     \cup Why(\A x \in C : LET e == c.acc[x] * 1000000
                           IN IF Have(x) THEN c.cti[x] >= 0 /\ c.cti[x] <= 1001000000 \div (c.slope[x] + 1) /\ Close(c.cti[x] * (c.slope[x] + 1), e, c.slope[x] + 1 + e \div 50000) ELSE c.cti[x] = -1, "CTI")
     \cup Why(c.refused, "rasters of different shapes accepted")
=============================================================================
