----------------------------- MODULE StructConf ----------------------------
(* Recorded histories of queues, disjoint sets, layout files and LRU lists   *)
(* against their specifications.                                             *)
EXTENDS CaseFile, Queues, Disjoint, Layout, LruList

At(i, o, x) == "step " \o ToString(i) \o " " \o o \o ": " \o x

RECURSIVE RunQueue(_, _, _, _, _)   \* O: the queue this one may be exchanged with
RunQueue(c, i, Q, O, bad) ==
  IF i > Len(c.ops) \/ bad # {} THEN bad ELSE
  LET op == c.ops[i]
      swap == op.o = "swap"
      f == IF swap THEN Faults(c.mode, O, op) ELSE Faults(c.mode, Q, op)
  IN RunQueue(c, i + 1, IF swap THEN O ELSE TLCEval(After(Q, op)), IF swap THEN Q ELSE O, {At(i, op.o, x) : x \in f})
JudgeQueue(c) == RunQueue(c, 1, <<>>, <<>>, {})

RECURSIVE RunSets(_, _, _, _, _)
RunSets(c, i, P, rep, bad) ==
  IF i > Len(c.ops) \/ bad # {} THEN bad ELSE
  LET op == c.ops[i]
      Q == TLCEval(SetsAfter(P, op))
  IN RunSets(c, i + 1, Q, op.rep, {At(i, op.o, x) : x \in SetFaults(P, Q, rep, op)})
JudgeSets(c) == RunSets(c, 1, Singletons(c.n), [x \in 1..c.n |-> x - 1], {})

JudgeLayout(c) ==
  LET g == TLCEval(Grid(c.text))
  IN Why(c.err = (g = <<>>), "rejected or not")
     \cup (IF c.err \/ g = <<>> THEN {} ELSE
           Why(Len(c.ev) = Len(g) * Len(g[1]), "number of entries")
           \cup UNION {{At(i, "entry", x) : x \in EntryFaults(g, i, c.ev[i])} : i \in 1..Len(c.ev)})
     \cup (IF ~c.written THEN {} ELSE
           Why(c.wrote = <<>> \/ (~c.err /\ Len(c.ev) = c.w * c.h
                 /\ \A i \in 1..Len(c.ev) : c.ev[i].name = Trim(FileOf(c.wrote[i]))), "read back what was written"))

RECURSIVE RunLru(_, _, _, _)
RunLru(c, i, L, bad) ==
  IF i > Len(c.ops) \/ bad # {} THEN bad ELSE
  LET op == c.ops[i]
      M == TLCEval(LruAfter(L, op))
  IN RunLru(c, i + 1, M, {At(i, op.o, x) : x \in LruFaults(L, M, op)})
JudgeLru(c) == RunLru(c, 1, LruStart, {})
=============================================================================
