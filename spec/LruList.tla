------------------------------ MODULE LruList ------------------------------
(* A list of least recently used items: most recent first.                   *)
EXTENDS Integers, Sequences
LruStart == [list |-> <<>>, cap |-> -1]
Drop(s, v) == SelectSeq(s, LAMBDA x : x # v)
LruAfter(L, op) ==
  CASE op.o = "insert" -> [L EXCEPT !.list = <<op.v>> \o Drop(@, op.v)]
    [] op.o = "pop" -> [L EXCEPT !.list = SubSeq(@, 1, Len(@) - 1)]
    [] op.o = "cap" -> [L EXCEPT !.cap = op.v]
    [] op.o = "prune" -> IF L.cap = -1 \/ Len(L.list) <= L.cap THEN L ELSE [L EXCEPT !.list = SubSeq(@, 1, L.cap)]
    [] OTHER -> L
LruFaults(L, M, op) ==
  LET W(b, s) == IF b THEN {} ELSE {s} IN
  W(op.list = M.list, "list") \cup W(op.size = Len(M.list), "size") \cup W(op.full = (Len(M.list) = M.cap), "full")
  \cup W(op.cap = M.cap, "capacity") \cup W(op.o = "pop" => op.res = L.list[Len(L.list)], "least recent item")
=============================================================================
