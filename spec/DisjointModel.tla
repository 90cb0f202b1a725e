--------------------------- MODULE DisjointModel ---------------------------
(* Union by rank with path compression over parent and rank arrays, explored *)
(* exhaustively: it must answer connectivity as the partition does.          *)
EXTENDS Disjoint, FiniteSets
CONSTANT MaxN
VARIABLES par, rank, P, rep
vars == <<par, rank, P, rep>>
RECURSIVE RootIn(_, _, _)
RootIn(f, x, k) == IF f[x + 1] = x THEN x ELSE IF k = 0 THEN -1 ELSE RootIn(f, f[x + 1], k - 1)
Root(f, x) == RootIn(f, x, MaxN + 1)
\* all cells on the way from x to its root now point to the root
RECURSIVE Path(_, _)
Path(f, x) == IF f[x + 1] = x THEN {x} ELSE {x} \cup Path(f, f[x + 1])
Compress(f, x) == [i \in 1..Len(f) |-> IF i - 1 \in Path(f, x) THEN Root(f, x) ELSE f[i]]
GrowTo(f, n) == Grown(f, n)
GrowRank(r, n) == [i \in 1..DMax(n, Len(r)) |-> IF i <= Len(r) THEN r[i] ELSE 0]
Init == par = <<>> /\ rank = <<>> /\ P = <<>> /\ rep = <<>>
RepOf(f) == [i \in 1..Len(f) |-> Root(f, i - 1)]
Link(f, r, a, b) == \* merge root a under root b
  [f |-> [f EXCEPT ![a + 1] = b], r |-> [r EXCEPT ![b + 1] = IF r[a + 1] >= @ THEN r[a + 1] + 1 ELSE @]]
Do(op, f, r) == /\ par' = f /\ rank' = r /\ P' = SetsAfter(P, op) /\ rep' = RepOf(f)
                /\ SetFaults(P, SetsAfter(P, op), rep, [op EXCEPT !.rep = RepOf(f)]) = {}
Mk(o, a, b, res) == [o |-> o, a |-> a, b |-> b, res |-> res, err |-> FALSE, rep |-> <<>>]
Make(a) == Do(Mk("make", a, a, -1), GrowTo(par, a + 1), GrowRank(rank, a + 1))
Find(a) == Knows(P, a) /\ Do(Mk("find", a, a, Root(par, a)), Compress(par, a), rank)
Union(a, b) == /\ Knows(P, a) /\ Knows(P, b)
  /\ LET f == Compress(Compress(par, a), b)
         x == Root(f, a)
         y == Root(f, b)
     IN IF x = y THEN Do(Mk("union", a, b, -1), f, rank)
        ELSE IF rank[x + 1] < rank[y + 1] THEN Do(Mk("union", a, b, -1), [f EXCEPT ![x + 1] = y], rank)
        ELSE Do(Mk("union", a, b, -1), [f EXCEPT ![y + 1] = x], IF rank[x + 1] = rank[y + 1] THEN [rank EXCEPT ![x + 1] = @ + 1] ELSE rank)
Merge(a, b) ==
  LET n == DMax(a, b) + 1
      f == Compress(Compress(GrowTo(par, n), a), b)
      r == GrowRank(rank, n)
      x == Root(f, a)
      y == Root(f, b)
  IN IF x = y THEN Do(Mk("merge", a, b, -1), f, r) ELSE LET l == Link(f, r, x, y) IN Do(Mk("merge", a, b, -1), l.f, l.r)
Els == 0..(MaxN - 1)
Next == \E a, b \in Els : Make(a) \/ Find(a) \/ Union(a, b) \/ Merge(a, b)
Spec == Init /\ [][Next]_vars
\* every operation is possible where the partition allows it: none is blocked by a fault
NeverBlocked == \A a, b \in Els : /\ ENABLED Make(a) /\ ENABLED Merge(a, b)
                                  /\ (Knows(P, a) => ENABLED Find(a)) /\ (Knows(P, a) /\ Knows(P, b) => ENABLED Union(a, b))
Answers == \A x, y \in 1..Len(par) : (Root(par, x - 1) = Root(par, y - 1)) = (P[x] = P[y])
Bounded == \A x \in 1..Len(rank) : rank[x] <= MaxN
StateBound == \A x \in 1..Len(rank) : rank[x] <= MaxN
=============================================================================
