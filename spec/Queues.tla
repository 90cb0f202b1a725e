------------------------------- MODULE Queues ------------------------------
(* Priority queues of cells.  The content is the sequence of entries in the  *)
(* order of insertion; a key of -1 stands for NaN, which sorts before every  *)
(* number.  Removal takes an entry with the lowest key: the earliest         *)
(* inserted for "fifo", the latest for "lifo", any of them otherwise.        *)
EXTENDS Integers, Sequences, FiniteSets
QMin(Q) == LET RECURSIVE M(_, _)
               M(i, m) == IF i > Len(Q) THEN m ELSE M(i + 1, IF Q[i].z < m THEN Q[i].z ELSE m)
           IN M(2, Q[1].z)
Lowest(Q) == LET m == QMin(Q) IN {i \in 1..Len(Q) : Q[i].z = m}
\* positions removal may take
Takes(mode, Q) == LET L == Lowest(Q) IN
  CASE mode = "fifo" -> {i \in L : \A j \in L : i <= j}
    [] mode = "lifo" -> {i \in L : \A j \in L : i >= j}
    [] OTHER -> L
Without(Q, i) == SubSeq(Q, 1, i - 1) \o SubSeq(Q, i + 1, Len(Q))
After(Q, op) ==
  CASE op.o = "push" -> Append(Q, [z |-> op.z, id |-> op.id])
    [] op.o = "pop" -> LET K == {i \in 1..Len(Q) : Q[i].id = op.id /\ Q[i].z = op.kz} IN
                       IF K = {} THEN Q ELSE Without(Q, CHOOSE i \in K : TRUE)
    [] op.o = "clear" -> <<>>
    [] op.o \in {"popall", "droplow"} -> SelectSeq(Q, LAMBDA e : e.z # QMin(Q))
    [] OTHER -> Q
\* the six comparisons of two cells by height
Compared(a, b) == LET N(p) == IF p THEN 1 ELSE 0 IN
  <<N(a < b), N(a > b), N(a >= b), N(a <= b), N(a = b), N(a # b)>>
Faults(mode, Q, op) ==
  LET W(b, s) == IF b THEN {} ELSE {s} IN
  W(op.res = Len(After(Q, op)), "size")
  \cup (CASE op.o = "pop" -> W(\E i \in Takes(mode, Q) : Q[i].id = op.id /\ Q[i].z = op.kz, "not the entry due")
        [] op.o = "top" -> W(\E i \in Lowest(Q) : Q[i].z = op.kz /\ Q[i].id = op.id, "not a lowest entry")
        [] op.o = "min" -> W(QMin(Q) = op.kz, "not the lowest key")
        [] op.o = "droplow" -> W(QMin(Q) = op.kz, "not the lowest key")
        [] op.o = "cmp" -> W(op.ids = Compared(op.z, op.kz), "not the order of the heights")
        [] op.o = "popall" -> W(QMin(Q) = op.kz, "not the lowest key")
                              \cup W({op.ids[i] : i \in 1..Len(op.ids)} = {Q[i].id : i \in Lowest(Q)} /\ Len(op.ids) = Cardinality(Lowest(Q)), "not all lowest entries")
        [] OTHER -> {})
=============================================================================
