----------------------------- MODULE FlatsConf -----------------------------
(* Recorded flat detection and resolution against the specification.        *)
EXTENDS CaseFile, Flats, DInf
JudgeFlats(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      E == TLCEval(EdgeCells(c.w, c.h))
      z == c.z
      ND == TLCEval({x \in C : c.nd[x] = 1})
      Flat == TLCEval(FlatCells(z, ND, E, N))
      Low == TLCEval(LowEdges(z, ND, Flat, N))
      Lvl == SameLevel(z, ND, N)
      Group == TLCEval(Reach(Low, Lvl))
      M == TLCEval(MaskOf(z, ND, E, N))
      K == Components(Group, Lvl)
      GoodLab(L) == /\ \A x \in C : (L[x] # 0) = (x \in Group)
                    /\ \A S \in K : \A x, y \in S : L[x] = L[y]
                    /\ Cardinality({L[x] : x \in Group}) = Cardinality(K)
      \* D-infinity in a flat: the steepest facet, within the flat, of the mask
      Apart == TLCEval([S \in K |-> C \ S])
      InFlat(x, a) ==
        LET O == Apart[CHOOSE S \in K : x \in S]
            B == TLCEval(BestFacets(M, O, c.w, c.h, x))
        IN IF B # {} THEN \E f \in B : Near(a, FacetAngle(M, c.w, c.h, x, f), 8)
           ELSE a > 0 /\ a % 10000 = 0 /\ LET t == Step8(c.w, c.h, x, DirOf((a \div 10000) % 8)) IN t \in Lvl[x] /\ M[t] < M[x]
      To(x) == IF c.fd[x] \in 1..8 THEN Step8(c.w, c.h, x, c.fd[x]) ELSE -1
  IN IF \E f \in {"flats", "mask", "lab", "eps", "mask2", "lab2", "fd", "fd0", "alt", "fa", "di", "di0"} : Len(c[f]) # c.w * c.h THEN {"dims"} ELSE
     Why(\A x \in C : c.flats[x] = (IF x \in ND THEN -1 ELSE IF x \in Flat THEN 1 ELSE 0), "FindFlats")
     \cup Why(c.mask = M, "GetFlatMask")
     \cup Why(GoodLab(c.lab), "GetFlatMask labels")
     \* raised by exactly the mask's increments, interior cells only
     \cup Why(\A x \in C : c.eps[x] = z[x] + (IF x \in Group /\ x \notin E THEN M[x] ELSE 0), "ResolveFlatsEpsilon")
     \cup Why(c.mask2 = M, "resolve_flats_barnes")
     \cup Why(GoodLab(c.lab2), "resolve_flats_barnes labels")
     \* every cell of a drainable flat flows to a lower-ranked cell of the flat
     \cup Why(\A x \in Flat \cap Group : LET t == To(x) IN
                t > 0 /\ t \in Lvl[x] /\ M[t] < M[x] /\ M[t] > 0, "flat cell does not drain within its flat")
     \cup Why(\A x \in Flat \ Group : c.fd[x] = 0, "flat without outlet resolved")
     \cup Why(\A x \in C \ Flat : c.fd[x] = c.fd0[x], "drained cell changed")
     \* resolving by altering the terrain, then by its directions
     \cup Why(\A x \in C : c.alt[x] = z[x] + (IF x \in Group /\ x \notin E THEN M[x] ELSE 0), "altered terrain")
     \cup Why(\A x \in C : LET t == IF c.fa[x] \in 1..8 THEN Step8(c.w, c.h, x, c.fa[x]) ELSE 0
                           IN t # 0 /\ t \notin ND => c.alt[t] < c.alt[x], "altered terrain does not drain")
     \cup Why(\A x \in Group : c.fa[x] # 0, "altered flat does not drain")
     \* resolving D-infinity directions
     \cup Why(\A x \in C \ ND : (c.di0[x] = 0) = (x \in Flat), "D-infinity flats")
     \cup Why(\A x \in C : x \notin Flat => c.di[x] = c.di0[x], "drained D-infinity cell changed")
     \cup Why(\A x \in Flat \ Group : c.di[x] = 0, "flat without outlet resolved by D-infinity")
     \cup Why(\A x \in Flat \cap Group : InFlat(x, c.di[x]), "D-infinity direction in a flat")
=============================================================================
