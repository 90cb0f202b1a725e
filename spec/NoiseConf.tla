----------------------------- MODULE NoiseConf -----------------------------
(* Recorded terrain: ten lattice cells across at any size.  c.v holds the    *)
(* raster of size 10s, c.u one of size n, a divisor of it, both made from    *)
(* the same seed; the numbers are noise in multiples of 1/One.  What the     *)
(* gradients are is not known beforehand: they are read off the lattice      *)
(* lines, and have to explain everything else.                               *)
EXTENDS CaseFile, Noise
At1(c, x, y) == c.v[y * 10 * c.s + x + 1]
Slopes == {Mix(Zw, a * One, b * One) : a, b \in {-1, 0, 1}}
Heights == {Mix(Zw, a * Above, b * Below) : a, b \in {-1, 0, 1}}
\* the slopes at both ends of a piece of lattice line that explain the s - 1 values on it
OnLine(w, s, P, Q, zp, zq) ==
  {e \in P \X Q : \A k \in 1..(s - 1) : Near(w[k], Mix(Curve(k, s), (e[1] * k) \div s + zp, (e[2] * (k - s)) \div s + zq))}
Ends(w, s, zp, zq) == LET E == OnLine(w, s, Slopes, Slopes, zp, zq) IN IF E = {} THEN <<>> ELSE CHOOSE e \in E : TRUE
Across(c, i, j) == [k \in 1..(c.s - 1) |-> At1(c, i * c.s + k, j * c.s)]
Down(c, i, j) == [k \in 1..(c.s - 1) |-> At1(c, i * c.s, j * c.s + k)]
JudgeNoise(c) ==
  LET s == c.s
      Z(i, j) == At1(c, i * s, j * s)
      H == TLCEval([p \in (0..8) \X (0..9) |-> Ends(Across(c, p[1], p[2]), s, Z(p[1], p[2]), Z(p[1] + 1, p[2]))])
      V == TLCEval([p \in (0..9) \X (0..8) |-> Ends(Down(c, p[1], p[2]), s, Z(p[1], p[2]), Z(p[1], p[2] + 1))])
      lines == (\A p \in DOMAIN H : H[p] # <<>>) /\ (\A p \in DOMAIN V : V[p] # <<>>)
      Gx(i, j) == IF i < 9 THEN H[<<i, j>>][1] ELSE H[<<8, j>>][2]
      Gy(i, j) == IF j < 9 THEN V[<<i, j>>][1] ELSE V[<<i, 8>>][2]
      F == TLCEval([p \in (0..9) \X (0..9) |->
             {e \in Gradients \X Gradients : LET b == Blend(e[1], e[2]) IN Near(b[1], Gx(p[1], p[2])) /\ Near(b[2], Gy(p[1], p[2])) /\ Near(b[3], Z(p[1], p[2]))}])
      found == \A p \in DOMAIN F : F[p] # {}
      Pt == TLCEval([p \in DOMAIN F |-> LET e == CHOOSE e \in F[p] : TRUE IN Blend(e[1], e[2])])
      used == {(CHOOSE e \in F[p] : TRUE)[k] : p \in DOMAIN F, k \in {1, 2}}
      many == {CHOOSE e \in F[p] : TRUE : p \in DOMAIN F}
  IN IF Len(c.v) # 100 * s * s \/ Len(c.u) # c.n * c.n THEN {"dims"} ELSE
     Why(c.kept, "not only the cells changed")
     \cup Why(\A x \in 0..(c.n - 1), y \in 0..(c.n - 1) : Near(c.u[y * c.n + x + 1], At1(c, x * ((10 * s) \div c.n), y * ((10 * s) \div c.n))), "another terrain at another size")
     \cup Why(lines, "a lattice line is not smooth")
     \cup (IF ~lines THEN {} ELSE
           Why(\A i \in 0..8, j \in 0..8 : (i > 0 => H[<<i - 1, j>>][2] = H[<<i, j>>][1]) /\ (j > 0 => V[<<i, j - 1>>][2] = V[<<i, j>>][1]), "slopes differ on the sides of a lattice point")
           \cup Why(\A j \in 0..9 : \E e \in Slopes \X Heights : \A k \in 1..(s - 1) :
                    Near(Across(c, 9, j)[k], Mix(Curve(k, s), (Gx(9, j) * k) \div s + Z(9, j), (e[1] * (k - s)) \div s + e[2])), "last column")
           \cup Why(\A i \in 0..9 : \E e \in Slopes \X Heights : \A k \in 1..(s - 1) :
                    Near(Down(c, i, 9)[k], Mix(Curve(k, s), (Gy(i, 9) * k) \div s + Z(i, 9), (e[1] * (k - s)) \div s + e[2])), "last row")
           \cup Why(found, "no gradient explains a lattice point")
           \cup (IF ~found THEN {} ELSE
                 Why(\A i \in 0..8, j \in 0..8 : \A x \in 1..(s - 1), y \in 1..(s - 1) :
                       Near(At1(c, i * s + x, j * s + y), In(Pt[<<i, j>>], Pt[<<i + 1, j>>], Pt[<<i, j + 1>>], Pt[<<i + 1, j + 1>>], x, y, s)), "a place within a cell is not the blend of its corners")
                 \cup Why(Cardinality(used) >= 11 /\ Cardinality(many) >= 25, "the gradients are not spread over all directions")))
=============================================================================
