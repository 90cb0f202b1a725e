--------------------------- MODULE ParallelModel ---------------------------
(* A parallel loop whose iterations the threads take in any order, every     *)
(* shared read and write a step of its own unless guarded, and the serial    *)
(* phase after it. The end is the definition, for every schedule.            *)
EXTENDS ParallelLoop
CONSTANTS Threads, N, Algo, Guard
\* Algo: "count" "collect" "reduce" "stencil" "flag"
\* Guard: "atomic" "critical" "plain"; for stencil "apart" or "in place";
\* for reduce "sorted" or "as merged"; for flag "or" (reduction) or "last"
VARIABLES recv, want, left, pc, it, tmp, priv, lock, mem, list, out, in, phase, queue, deps, acc
vars == <<recv, want, left, pc, it, tmp, priv, lock, mem, list, out, in, phase, queue, deps, acc>>
Is == 1..N
Given == <<recv, want>>
Serial == <<queue, deps, acc>>
Init == /\ recv \in (IF Algo = "count" THEN {f \in [Is -> 0..N] : Acyclic(N, f)} ELSE {[i \in Is |-> 0]})
        /\ want \in (IF Algo \in {"collect", "reduce", "flag"} THEN SUBSET Is ELSE {Is})
        /\ in \in (IF Algo = "stencil" THEN [Is -> 0..2] ELSE {[i \in Is |-> 0]})
        /\ left = Is /\ pc = [t \in Threads |-> "idle"] /\ it = [t \in Threads |-> 0] /\ tmp = [t \in Threads |-> <<>>]
        /\ priv = [t \in Threads |-> <<>>] /\ lock = 0 /\ mem = [c \in Is |-> 0] /\ list = <<>> /\ out = [c \in Is |-> 0]
        /\ phase = "loop" /\ queue = <<>> /\ deps = [c \in Is |-> 0] /\ acc = [c \in Is |-> 0]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
\* nothing to do for iteration i
Idle(i) == \/ Algo = "count" /\ recv[i] = 0
           \/ Algo \in {"collect", "reduce", "flag"} /\ i \notin want
First == CASE Algo = "count" /\ Guard = "atomic" -> "bump"
           [] Algo \in {"count", "collect"} /\ Guard = "critical" -> "enter"
           [] Algo \in {"count", "collect"} -> "read"
           [] Algo \in {"reduce", "flag"} -> "mine"
           [] OTHER -> "west"
Take(t) == \E i \in left :
  /\ phase = "loop" /\ Go(t, "idle", IF Idle(i) THEN "idle" ELSE First)
  /\ left' = left \ {i} /\ it' = [it EXCEPT ![t] = i]
  /\ UNCHANGED <<Given, Serial, tmp, priv, lock, mem, list, out, in, phase>>
Bump(t) == /\ Go(t, "bump", "idle") /\ mem' = [mem EXCEPT ![recv[it[t]]] = @ + 1]
           /\ UNCHANGED <<Given, Serial, left, it, tmp, priv, lock, list, out, in, phase>>
Enter(t) == /\ lock = 0 /\ Go(t, "enter", "read") /\ lock' = t
            /\ UNCHANGED <<Given, Serial, left, it, tmp, priv, mem, list, out, in, phase>>
Read(t) == /\ Go(t, "read", "write")
           /\ tmp' = [tmp EXCEPT ![t] = IF Algo = "count" THEN <<mem[recv[it[t]]]>> ELSE list]
           /\ UNCHANGED <<Given, Serial, left, it, priv, lock, mem, list, out, in, phase>>
Write(t) == /\ Go(t, "write", "idle")
            /\ IF Algo = "count" THEN mem' = [mem EXCEPT ![recv[it[t]]] = tmp[t][1] + 1] /\ list' = list
               ELSE list' = Append(tmp[t], it[t]) /\ mem' = mem
            /\ lock' = (IF Guard = "critical" THEN 0 ELSE lock)
            /\ tmp' = [tmp EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<Given, Serial, left, it, priv, out, in, phase>>
Mine(t) == /\ Go(t, "mine", "idle") /\ priv' = [priv EXCEPT ![t] = Append(@, it[t])]
           /\ UNCHANGED <<Given, Serial, left, it, tmp, lock, mem, list, out, in, phase>>
\* a thread that finds no iterations left adds its own to the whole
Merge(t) == /\ phase = "loop" /\ left = {} /\ Algo \in {"reduce", "flag"} /\ Go(t, "idle", "merged")
            /\ list' = (IF Algo = "flag" /\ Guard = "last" THEN priv[t] ELSE list \o priv[t])
            /\ UNCHANGED <<Given, Serial, left, it, tmp, priv, lock, mem, out, in, phase>>
From == IF Guard = "in place" THEN out ELSE in
Look(t, a, b, c) == /\ Go(t, a, b) /\ tmp' = [tmp EXCEPT ![t] = Append(@, From[c])]
                    /\ UNCHANGED <<Given, Serial, left, it, priv, lock, mem, list, out, in, phase>>
West(t) == LET i == it[t] IN Look(t, "west", "here", IF i = 1 THEN 1 ELSE i - 1)
Here(t) == Look(t, "here", "east", it[t])
East(t) == LET i == it[t] IN Look(t, "east", "store", IF i = N THEN N ELSE i + 1)
Store(t) == /\ Go(t, "store", "idle") /\ out' = [out EXCEPT ![it[t]] = tmp[t][1] + 10 * tmp[t][2] + 100 * tmp[t][3]]
            /\ tmp' = [tmp EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<Given, Serial, left, it, priv, lock, mem, list, in, phase>>
Thread(t) == Take(t) \/ Bump(t) \/ Enter(t) \/ Read(t) \/ Write(t) \/ Mine(t) \/ Merge(t) \/ West(t) \/ Here(t) \/ East(t) \/ Store(t)
\* the loop has ended: what is serial begins
Insert(q, x) == LET k == Cardinality({i \in 1..Len(q) : q[i] < x}) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN q ELSE Insert(Sort(Tail(q)), Head(q))
Join == /\ phase = "loop" /\ left = {} /\ \A t \in Threads : pc[t] = (IF Algo \in {"reduce", "flag"} THEN "merged" ELSE "idle")
        /\ phase' = "serial" /\ deps' = mem /\ acc' = [c \in Is |-> IF Algo = "count" THEN 1 ELSE 0]
        /\ queue' = (CASE Algo = "count" -> SelectSeq([i \in Is |-> i], LAMBDA c : mem[c] = 0)
                       [] Algo = "collect" -> [i \in 1..Len(list) |-> <<list[i], 1, i>>]
                       [] OTHER -> <<>>)
        /\ list' = (IF Algo = "reduce" /\ Guard = "sorted" THEN Sort(list) ELSE list)
        /\ UNCHANGED <<Given, left, pc, it, tmp, priv, lock, mem, out, in>>
Drain == /\ phase = "serial" /\ queue # <<>> /\ Algo = "count"
         /\ LET c == Head(queue)  r == recv[c]
            IN IF r = 0 THEN queue' = Tail(queue) /\ UNCHANGED <<deps, acc>>
               ELSE /\ acc' = [acc EXCEPT ![r] = @ + acc[c]] /\ deps' = [deps EXCEPT ![r] = @ - 1]
                    /\ queue' = (IF deps[r] = 1 THEN Append(Tail(queue), r) ELSE Tail(queue))
         /\ UNCHANGED <<Given, left, pc, it, tmp, priv, lock, mem, list, out, in, phase>>
\* breadth first from the collected cells: acc is the level, deps whose it is
Spread == /\ phase = "serial" /\ queue # <<>> /\ Algo = "collect"
          /\ LET c == Head(queue)
                 New == {d \in {c[1] - 1, c[1] + 1} : d \in Is}
                 q == IF acc[c[1]] # 0 THEN <<>> ELSE SelectSeq(<<<<c[1] - 1, c[2] + 1, c[3]>>, <<c[1] + 1, c[2] + 1, c[3]>>>>, LAMBDA e : e[1] \in New)
             IN /\ queue' = Tail(queue) \o q
                /\ acc' = (IF acc[c[1]] = 0 THEN [acc EXCEPT ![c[1]] = c[2]] ELSE acc)
                /\ deps' = (IF acc[c[1]] = 0 THEN [deps EXCEPT ![c[1]] = c[3]] ELSE deps)
          /\ UNCHANGED <<Given, left, pc, it, tmp, priv, lock, mem, list, out, in, phase>>
End == /\ phase = "serial" /\ queue = <<>> /\ phase' = "end"
       /\ UNCHANGED <<Given, Serial, left, pc, it, tmp, priv, lock, mem, list, out, in>>
Next == (\E t \in Threads : Thread(t)) \/ Join \/ Drain \/ Spread \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == phase = "end" =>
  CASE Algo = "count" -> mem = Waits(N, recv) /\ acc = Acc(N, recv)
    [] Algo = "collect" -> Len(list) = Cardinality(want) /\ SetOf(list) = want /\ acc = Levels(N, want)
    [] Algo = "reduce" -> list = Sort(list) /\ SetOf(list) = want
    [] Algo = "flag" -> (list # <<>>) = (want # {})
    [] OTHER -> out = Smooth(N, in)
\* each iteration is taken by one thread, and none is left behind
Once == \A s, t \in Threads : (s # t /\ it[s] # 0) => it[s] # it[t]
Alone == lock # 0 => pc[lock] \in {"read", "write"} /\ \A t \in Threads \ {lock} : pc[t] \notin {"read", "write"}
\* what is merged is as many as there were, whoever did them
Kept == (phase = "end" /\ Algo = "reduce") => Len(list) = Cardinality(want)
Ends == <>(phase = "end")
=============================================================================
