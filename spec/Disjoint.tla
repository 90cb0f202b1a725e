------------------------------ MODULE Disjoint -----------------------------
(* Disjoint sets of 0..n-1.  A partition is a sequence giving, for element   *)
(* x at position x+1, the least element of its set.                          *)
EXTENDS Integers, Sequences
Singletons(n) == [i \in 1..n |-> i - 1]
DMax(a, b) == IF a >= b THEN a ELSE b
Grown(P, n) == [i \in 1..DMax(n, Len(P)) |-> IF i <= Len(P) THEN P[i] ELSE i - 1]
Joined(P, a, b) == LET x == P[a + 1]
                       y == P[b + 1]
                       m == IF x < y THEN x ELSE y
                   IN [i \in 1..Len(P) |-> IF P[i] \in {x, y} THEN m ELSE P[i]]
Knows(P, x) == x < Len(P)
Refused(P, op) == CASE op.o \in {"union", "same"} -> ~Knows(P, op.a) \/ ~Knows(P, op.b)
                    [] op.o = "find" -> ~Knows(P, op.a)
                    [] OTHER -> FALSE
SetsAfter(P, op) ==
  IF Refused(P, op) THEN P ELSE
  CASE op.o = "make" -> Grown(P, op.a + 1)
    [] op.o = "merge" -> Joined(Grown(P, DMax(op.a, op.b) + 1), op.a, op.b)
    [] op.o = "union" -> Joined(P, op.a, op.b)
    [] OTHER -> P
\* P, Q: partitions before and after; rep: representatives before, op.rep: after
SetFaults(P, Q, rep, op) ==
  LET W(b, s) == IF b THEN {} ELSE {s}
      n == Len(Q)
      old(x) == IF x < Len(rep) THEN rep[x + 1] ELSE x
      new(x) == op.rep[x + 1]
  IN IF op.err # Refused(P, op) THEN {"refused or not"} ELSE
     (IF Len(op.rep) # n THEN {"number of elements"} ELSE
           W(\A x, y \in 1..n : (op.rep[x] = op.rep[y]) = (Q[x] = Q[y]), "which elements are connected")
           \cup W(\A x \in 1..n : op.rep[x] \in 0..(n - 1) /\ Q[op.rep[x] + 1] = Q[x], "representative outside its set")
           \cup W(op.o = "merge" => new(op.b) = old(op.b), "merging changed the target's representative")
           \cup W(op.o = "union" /\ ~op.err => new(op.a) \in {old(op.a), old(op.b)}, "representative of a union")
           \cup W(\A x \in 1..n : (op.err \/ op.o \notin {"merge", "union"} \/ (Q[x] # Q[op.a + 1])) => op.rep[x] = old(x - 1), "unrelated representative changed")
           \cup W(~op.err /\ op.o = "find" => op.res = old(op.a), "find")
           \cup W(~op.err /\ op.o = "same" => op.res = (IF P[op.a + 1] = P[op.b + 1] THEN 1 ELSE 0), "sameSet")
           \cup W(op.o = "max" => op.res = Len(P) - 1, "maxElement"))
=============================================================================
