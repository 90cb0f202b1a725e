---------------------------- MODULE ManagedVec -----------------------------
(* The memory wrapper as its users see it: V holds vectors, each with values *)
(* of its own (at = 0) or a view of the first n values of foreign memory B.  *)
EXTENDS Integers, Sequences, TLC

VNone == [n |-> 0, at |-> 0, z |-> <<>>]
VStart(k, B) == [V |-> [a \in 1..k |-> VNone], B |-> B]
VCells(S, a) == LET v == S.V[a] IN IF v.at = 0 THEN v.z ELSE SubSeq(S.B[v.at], 1, v.n)
VPut(S, a, z) == LET v == S.V[a] IN
  IF v.at = 0 THEN [S EXCEPT !.V[a].z = z]
  ELSE [S EXCEPT !.B[v.at] = [i \in 1..Len(@) |-> IF i <= Len(z) THEN z[i] ELSE @[i]]]
Const(n, v) == [i \in 1..n |-> v]

\* effect of one operation: new state, and whether it is refused
VStep(S, op) ==
  LET a == op.a
      b == op.b
      p == op.p
      v == S.V[a]
      Ok(T) == [S |-> T, err |-> FALSE]
      Set(x) == Ok([S EXCEPT !.V[a] = x])
  IN CASE op.o = "new" -> Set([n |-> p[1], at |-> 0, z |-> Const(p[1], p[2])])
     [] op.o = "wrap" -> Set([n |-> p[1], at |-> p[2], z |-> <<>>])
     [] op.o = "copy" -> Set([n |-> S.V[b].n, at |-> 0, z |-> VCells(S, b)])
     [] op.o = "move" -> Ok([S EXCEPT !.V[a] = S.V[b], !.V[b] = VNone])
     [] op.o = "resize" -> IF v.at # 0 /\ p[1] # v.n THEN [S |-> S, err |-> TRUE]
                           ELSE IF v.at # 0 THEN Ok(VPut(S, a, Const(p[1], p[2])))
                           ELSE Set([n |-> p[1], at |-> 0, z |-> Const(p[1], p[2])])
     [] op.o = "set" -> Ok(VPut(S, a, [VCells(S, a) EXCEPT ![p[1] + 1] = p[2]]))
     [] op.o = "destroy" -> Set(VNone)
     [] op.o = "poke" -> Ok([S EXCEPT !.B[p[1]][p[2] + 1] = p[3]])
     [] op.o = "pass" -> Ok(S)

VLooks(S, a, o) == LET v == S.V[a] IN
  o.n = v.n /\ o.own = (v.at = 0) /\ o.empty = (v.n = 0) /\ o.z = VCells(S, a) /\ (v.n > 0 => o.at = v.at)

RECURSIVE RunVec(_, _, _, _)
RunVec(c, i, S, bad) ==
  IF i > Len(c.steps) \/ bad # {} THEN bad ELSE
  LET op == c.steps[i]
      T == TLCEval(VStep(S, op))
      half == Len(op.B) \div 2
      W(t, s) == IF t THEN {} ELSE {"step " \o ToString(i) \o " " \o op.o \o ": " \o s}
  IN RunVec(c, i + 1, T.S,
       W(T.err = op.err, "refused or not") \cup W(\A a \in 1..Len(op.S) : VLooks(T.S, a, op.S[a]), "vectors")
       \cup W(T.S.B = <<SubSeq(op.B, 1, half), SubSeq(op.B, half + 1, 2 * half)>>, "foreign memory")
       \cup W(op.bad = 0, "freed what it does not own"))
=============================================================================
