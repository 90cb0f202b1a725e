---------------------------- MODULE ThreadsConf ----------------------------
(* Each operation's results under other numbers of threads and schedules     *)
(* are its result alone. (num: a sum of reals in thousandths, whose last     *)
(* digit may depend on the order of adding; 2 either way)                    *)
EXTENDS CaseFile, ParallelLoop
Near(a, b) == a - b \in -2..2
JudgeThreads(c) ==
  UNION {LET o == c.ops[k]
             a == o.runs[1]
         IN Why(\A i \in 1..Len(o.runs) : o.runs[i].v = a.v, "depends on the threads: " \o o.op)
            \cup Why(\A i \in 1..Len(o.runs) : Near(o.runs[i].num, a.num), "sum depends on the threads: " \o o.op)
         : k \in 1..Len(c.ops)}
  \cup Why(c.exact, "the runtime deals iterations out wrongly")
  \cup Why(c.real \/ c.lost > 0, "the schedules lose no update of an unprotected loop")
  \cup Why(c.real \/ (c.teams > 20 /\ c.switches > 100), "the loops did not run in parallel")
=============================================================================
