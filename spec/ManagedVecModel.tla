-------------------------- MODULE ManagedVecModel --------------------------
(* How the wrapper manages memory: objects hold a pointer to a block of a    *)
(* heap and a flag saying whether the block is theirs.  Blocks 1..NF are     *)
(* foreign; the others are allocated and freed.  TLC explores every history  *)
(* of operations on N objects and checks that memory is freed exactly once,  *)
(* foreign memory never, and that values behave as in ManagedVec.            *)
EXTENDS ManagedVec, FiniteSets
CONSTANTS N,        \* objects
          NF,       \* foreign blocks (each of SZ values)
          SZ,       \* largest size
          NB,       \* blocks in total: foreign ones first
          FreesForeign \* a known way to get it wrong: assignment frees what it wraps

VARIABLES ptr, own, n, heap, state, val, wrong
\* heap[k]: contents of block k; state[k] in {"foreign","free","live"}; val: the abstract state
vars == <<ptr, own, n, heap, state, val, wrong>>
Objs == 1..N
Blocks == 1..NB
Init == /\ ptr = [a \in Objs |-> 0] /\ own = [a \in Objs |-> TRUE] /\ n = [a \in Objs |-> 0]
        /\ heap = [k \in Blocks |-> IF k <= NF THEN Const(SZ, 0) ELSE <<>>]
        /\ state = [k \in Blocks |-> IF k <= NF THEN "foreign" ELSE "free"]
        /\ val = VStart(N, [k \in 1..NF |-> Const(SZ, 0)])
        /\ wrong = {}

Fresh == CHOOSE k \in Blocks : state[k] = "free"
HasFresh == \E k \in Blocks : state[k] = "free"
\* freeing block k in state st
FreeBlock(st, k) == IF k = 0 THEN st ELSE [st EXCEPT ![k] = "free"]
Complain(st, k) == IF k # 0 /\ st[k] # "live" THEN {<<"freed", k, st[k]>>} ELSE {}
\* what an object gives back when it is overwritten or destroyed
Gives(a) == IF own[a] \/ FreesForeign THEN ptr[a] ELSE 0
Abs(op) == val' = VStep(val, op).S

New(a, sz, v) == /\ HasFresh
  /\ LET k == Fresh IN
       /\ ptr' = [ptr EXCEPT ![a] = k] /\ own' = [own EXCEPT ![a] = TRUE] /\ n' = [n EXCEPT ![a] = sz]
       /\ heap' = [heap EXCEPT ![k] = Const(sz, v)]
       /\ wrong' = wrong \cup Complain(state, Gives(a))
       /\ state' = [FreeBlock(state, Gives(a)) EXCEPT ![k] = "live"]
  /\ Abs([o |-> "new", a |-> a, b |-> a, p |-> <<sz, v>>])
Wrap(a, f, sz) ==
  /\ ptr' = [ptr EXCEPT ![a] = f] /\ own' = [own EXCEPT ![a] = FALSE] /\ n' = [n EXCEPT ![a] = sz]
  /\ wrong' = wrong \cup Complain(state, Gives(a)) /\ state' = FreeBlock(state, Gives(a))
  /\ UNCHANGED heap /\ Abs([o |-> "wrap", a |-> a, b |-> a, p |-> <<sz, f>>])
Copy(a, b) == /\ HasFresh  \* a temporary copy is made, then moved over a
  /\ LET k == Fresh IN
       /\ ptr' = [ptr EXCEPT ![a] = k] /\ own' = [own EXCEPT ![a] = TRUE] /\ n' = [n EXCEPT ![a] = n[b]]
       /\ heap' = [heap EXCEPT ![k] = IF n[b] = 0 THEN <<>> ELSE SubSeq(heap[ptr[b]], 1, n[b])]
       /\ wrong' = wrong \cup Complain(state, Gives(a))
       /\ state' = [FreeBlock(state, Gives(a)) EXCEPT ![k] = "live"]
  /\ Abs([o |-> "copy", a |-> a, b |-> b, p |-> <<>>])
Move(a, b) == /\ a # b
  /\ ptr' = [ptr EXCEPT ![a] = ptr[b], ![b] = 0] /\ own' = [own EXCEPT ![a] = own[b], ![b] = TRUE] /\ n' = [n EXCEPT ![a] = n[b], ![b] = 0]
  /\ wrong' = wrong \cup Complain(state, Gives(a)) /\ state' = FreeBlock(state, Gives(a))
  /\ UNCHANGED heap /\ Abs([o |-> "move", a |-> a, b |-> b, p |-> <<>>])
Resize(a, sz, v) ==
  IF sz = n[a] \/ ~own[a]
  THEN /\ IF sz = n[a] /\ sz > 0 THEN heap' = [heap EXCEPT ![ptr[a]] = [i \in 1..Len(@) |-> IF i <= sz THEN v ELSE @[i]]] ELSE UNCHANGED heap
       /\ UNCHANGED <<ptr, own, n, state, wrong>> /\ Abs([o |-> "resize", a |-> a, b |-> a, p |-> <<sz, v>>])
  ELSE \* the old block goes first
       LET st == FreeBlock(state, ptr[a])
           k == CHOOSE x \in Blocks : st[x] = "free"
       IN /\ \E x \in Blocks : st[x] = "free"
          /\ wrong' = wrong \cup Complain(state, ptr[a])
          /\ state' = [st EXCEPT ![k] = "live"] /\ ptr' = [ptr EXCEPT ![a] = k] /\ n' = [n EXCEPT ![a] = sz]
          /\ heap' = [heap EXCEPT ![k] = Const(sz, v)] /\ UNCHANGED own
          /\ Abs([o |-> "resize", a |-> a, b |-> a, p |-> <<sz, v>>])
Set(a, i, v) == /\ i <= n[a] /\ heap' = [heap EXCEPT ![ptr[a]][i] = v] /\ UNCHANGED <<ptr, own, n, state, wrong>>
                /\ Abs([o |-> "set", a |-> a, b |-> a, p |-> <<i - 1, v>>])
Destroy(a) == /\ wrong' = wrong \cup (IF own[a] THEN Complain(state, ptr[a]) ELSE {})
              /\ state' = IF own[a] THEN FreeBlock(state, ptr[a]) ELSE state
              /\ ptr' = [ptr EXCEPT ![a] = 0] /\ own' = [own EXCEPT ![a] = TRUE] /\ n' = [n EXCEPT ![a] = 0]
              /\ UNCHANGED heap /\ Abs([o |-> "destroy", a |-> a, b |-> a, p |-> <<>>])
Vals == {0, 1}
Next == \E a \in Objs : \/ \E sz \in 1..SZ, v \in Vals : New(a, sz, v) \/ Resize(a, sz, v)
                        \/ \E f \in 1..NF, sz \in 1..SZ : Wrap(a, f, sz)
                        \/ \E b \in Objs : Copy(a, b) \/ Move(a, b)
                        \/ \E i \in 1..SZ, v \in Vals : Set(a, i, v)
                        \/ Destroy(a)
Spec == Init /\ [][Next]_vars

Mem(a) == IF n[a] = 0 THEN <<>> ELSE SubSeq(heap[ptr[a]], 1, n[a])
NothingWrong == wrong = {}
ForeignStays == \A k \in 1..NF : state[k] = "foreign"
OneOwner == \A k \in (NF + 1)..NB : state[k] = "live" <=> Cardinality({a \in Objs : own[a] /\ ptr[a] = k}) = 1
NoDangling == \A a \in Objs : ptr[a] # 0 => state[ptr[a]] \in {"live", "foreign"} /\ (own[a] <=> state[ptr[a]] = "live")
Refines == /\ \A a \in Objs : Mem(a) = VCells(val, a) /\ n[a] = val.V[a].n /\ (n[a] > 0 => own[a] = (val.V[a].at = 0))
           /\ \A k \in 1..NF : heap[k] = val.B[k]
\* blocks freed keep junk: not part of the behaviour
View == <<ptr, own, n, [k \in Blocks |-> IF state[k] = "free" THEN <<>> ELSE heap[k]], state, wrong>>
=============================================================================
