------------------------------- MODULE PyHeap -------------------------------
(* The arrays a Python user holds: buffers of values, and arrays that are    *)
(* windows onto buffers (slices, transposes, in-place results), each with    *)
(* its own metadata.  How a buffer lies in memory is not part of the state:  *)
(* nothing a user sees may depend on it.                                     *)
EXTENDS Raster

PyRange(s) == {s[i] : i \in 1..Len(s)}
\* H: buffers;  A: arrays, [b: buffer, ix: positions in it in reading order, w, h, k, m: metadata]
Values(S, a) == [i \in 1..Len(S.A[a].ix) |-> S.H[S.A[a].b][S.A[a].ix[i]]]

\* an array of its own
Fresh(S, vals, w, h, k, m) ==
  [S EXCEPT !.H = Append(@, vals),
            !.A = Append(@, [b |-> Len(S.H) + 1, ix |-> [i \in 1..Len(vals) |-> i], w |-> w, h |-> h, k |-> k, m |-> m])]
\* another array over the same memory
Alias(S, a, m) == [S EXCEPT !.A = Append(@, [S.A[a] EXCEPT !.m = m])]
\* part of an array: every sy-th row from y0 and sx-th column from x0, perhaps transposed
Window2(S, a, v) ==
  LET A == S.A[a]
      At(r, q) == A.ix[(v.y0 + v.sy * r) * A.w + v.x0 + v.sx * q + 1]
      w == IF v.tr THEN v.ny ELSE v.nx
      h == IF v.tr THEN v.nx ELSE v.ny
  IN [S EXCEPT !.A = Append(@, [A EXCEPT !.w = w, !.h = h,
        !.ix = [i \in 1..(w * h) |-> LET r == (i - 1) \div w IN LET q == (i - 1) % w IN IF v.tr THEN At(q, r) ELSE At(r, q)]])]
\* everything an array shows is replaced
Overwrite(S, a, vals) ==
  LET A == S.A[a]
      where == PyRange(A.ix)
      inv == [p \in where |-> CHOOSE i \in 1..Len(A.ix) : A.ix[i] = p]
  IN [S EXCEPT !.H[A.b] = [p \in 1..Len(@) |-> IF p \in where THEN vals[inv[p]] ELSE @[p]]]
WriteOne(S, a, i, v) == [S EXCEPT !.H[S.A[a].b][S.A[a].ix[i]] = v]
SetMeta(S, a, m) == [S EXCEPT !.A[a].m = m]
=============================================================================
