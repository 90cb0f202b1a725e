------------------------------ MODULE FlowAccum ------------------------------
(* Accumulating flow along proportions: a cell is ready once everything      *)
(* upstream of it has been handed down.  Ready cells are taken in any order  *)
(* (nondeterministic), so the model covers every queue discipline.           *)
(* Checked for every acyclic way of giving each cell up to MaxOut downstream *)
(* neighbours with equal shares.                                             *)
EXTENDS Raster
CONSTANTS W, H, MaxOut, NDmax
C == Cells(W, H)
N == Nb8(W, H)
\* weights are multiples of G, so that shares stay integral
G == 2 ^ (W * H)
VARIABLES out, nd, wt, acc, deps, ready, done
vars == <<out, nd, wt, acc, deps, ready, done>>
\* acyclic: cells pass flow only to neighbours of lower rank (rank = a permutation-free
\* order: the cell number, reversed or not, row- or column-major)
Ranks == {[c \in C |-> c], [c \in C |-> W * H - c], [c \in C |-> XOf(W, c) * H + YOf(W, c)],
          [c \in C |-> IF c % 2 = 0 THEN c ELSE c + 100], [c \in C |-> (c * 5) % 7]}
RECURSIVE Assign(_, _)
Assign(r, k) ==    \* all functions on 1..k as sequences
  IF k = 0 THEN {<<>>}
  ELSE {Append(s, D) : s \in Assign(r, k - 1),
                       D \in {X \in SUBSET {n \in N[k] : r[n] < r[k]} : Cardinality(X) <= MaxOut}}
Init == /\ \E r \in Ranks : out \in Assign(r, W * H)
        /\ nd \in {X \in SUBSET C : Cardinality(X) <= NDmax}
        /\ \A c \in nd : out[c] = {}
        /\ wt \in {[c \in C |-> G], [c \in C |-> IF c % 2 = 0 THEN 3 * G ELSE 0]}
        /\ acc = wt
        /\ deps = [c \in C |-> Cardinality({u \in C : c \in out[u]})]
        /\ ready = {c \in C \ nd : \A u \in C : c \notin out[u]}
        /\ done = {}
Take(c) == /\ c \in ready
           /\ LET T == out[c] \ nd
                  give == IF out[c] = {} THEN 0 ELSE acc[c] \div Cardinality(out[c])
                  d2 == [n \in C |-> IF n \in T THEN deps[n] - 1 ELSE deps[n]]
              IN /\ acc' = [n \in C |-> IF n \in T THEN acc[n] + give ELSE acc[n]]
                 /\ deps' = d2
                 /\ ready' = (ready \ {c}) \cup {n \in T : d2[n] = 0}
                 /\ done' = done \cup {c}
           /\ UNCHANGED <<out, nd, wt>>
Next == \E c \in C : Take(c)
Spec == Init /\ [][Next]_vars

\* The declarative accumulation: own weight plus received shares.
Solves(a) == \A c \in C \ nd :
  a[c] = wt[c] + SumOver([u \in C |-> IF c \in out[u] THEN a[u] \div Cardinality(out[u]) ELSE 0], C \ nd)
\* nothing is taken twice, and everything that is ready has received all it will get
ReadyFinal == \A c \in ready : deps[c] = 0 /\ c \notin done
DoneRight == ready = {} => /\ done = C \ nd
                           /\ Solves(acc)
                           /\ SumOver(wt, C \ nd) = SumOver([c \in C |->
                                 IF out[c] = {} THEN acc[c]
                                 ELSE Cardinality(out[c] \cap nd) * (acc[c] \div Cardinality(out[c]))], C \ nd)
=============================================================================
