---------------------------- MODULE ParallelLoop ---------------------------
(* What the parallel loops of the raster operations are to compute, however  *)
(* their iterations are dealt out: dependency counts, collected cells, sums, *)
(* and rasters computed from neighbours; and what follows them serially.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* recv[i]: the cell i drains to, 0 for none
Waits(N, recv) == [c \in 1..N |-> Cardinality({i \in 1..N : recv[i] = c})]
RECURSIVE Upstream(_, _, _)
Upstream(N, recv, c) == LET Ds == {i \in 1..N : recv[i] = c}
                        IN {c} \cup UNION {Upstream(N, recv, d) : d \in Ds}
Acc(N, recv) == [c \in 1..N |-> Cardinality(Upstream(N, recv, c))]
Acyclic(N, recv) == \A i \in 1..N : recv[i] < i
\* on a line of N cells, how far from the nearest collected one
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Levels(N, Src) == [c \in 1..N |-> IF Src = {} THEN 0 ELSE 1 + Min({Dist(c, s) : s \in Src})]
Smooth(N, in) == [c \in 1..N |-> in[IF c = 1 THEN 1 ELSE c - 1] + 10 * in[c] + 100 * in[IF c = N THEN N ELSE c + 1]]
\* labels agree if one is the other renamed
SameParts(l, m) == DOMAIN l = DOMAIN m /\ \A x, y \in DOMAIN l : (l[x] = l[y]) = (m[x] = m[y])
SetOf(q) == {q[i] : i \in 1..Len(q)}
Sorted(q) == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]
=============================================================================
