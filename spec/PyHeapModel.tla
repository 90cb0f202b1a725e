----------------------------- MODULE PyHeapModel -----------------------------
(* Calls on arrays that may be windows onto other arrays.  The library works *)
(* on memory in row order, so it may have to work on a copy; what matters is *)
(* that this cannot be seen.  S follows the implementation's steps, G the    *)
(* meaning of the calls.                                                     *)
EXTENDS PyHeap
CONSTANTS CopyBack,        \* a copy worked on in place is written back
          WeightsCopied,   \* weights are copied before being accumulated into
          MaxArrays, MaxCalls
VARIABLES S, G, calls
vars == <<S, G, calls>>

Work(v) == [i \in 1..Len(v) |-> (v[i] + i) % 3]   \* some work that depends on the place
Init == /\ S = Fresh([H |-> <<>>, A |-> <<>>], <<0, 1, 2, 0, 2, 1>>, 3, 2, 1, "m")
        /\ G = S /\ calls = 0

InRowOrder(A) == \A i \in 1..Len(A.ix) : A.ix[i] = A.ix[1] + i - 1
Windows(A) ==
  {[tr |-> tr, y0 |-> y, sy |-> sy, ny |-> ny, x0 |-> x, sx |-> sx, nx |-> nx] :
     tr \in BOOLEAN, y \in 0..(A.h - 1), sy \in {1, -1}, ny \in 1..A.h, x \in 0..(A.w - 1), sx \in {1, -1, 2}, nx \in 1..A.w}
Fits(A, v) == /\ v.y0 + v.sy * (v.ny - 1) \in 0..(A.h - 1) /\ v.x0 + v.sx * (v.nx - 1) \in 0..(A.w - 1)
              /\ (v.ny = 1 => v.sy = 1) /\ (v.nx = 1 => v.sx = 1)

Look == /\ Len(S.A) < MaxArrays
        /\ \E a \in 1..Len(S.A) : \E v \in {v \in Windows(S.A[a]) : Fits(S.A[a], v)} :
             S' = Window2(S, a, v) /\ G' = Window2(G, a, v)
        /\ UNCHANGED calls

\* the implementation: wrap (perhaps a copy), work, perhaps copy back
InPlace(T, a) == IF InRowOrder(T.A[a]) \/ CopyBack THEN Overwrite(T, a, Work(Values(T, a))) ELSE T
Call == /\ calls < MaxCalls /\ calls' = calls + 1
        /\ \E a \in 1..Len(S.A) :
             \/ S' = InPlace(S, a) /\ G' = Overwrite(G, a, Work(Values(G, a)))
             \/ \* on a copy
                /\ Len(S.A) < MaxArrays
                /\ G' = Fresh(G, Work(Values(G, a)), G.A[a].w, G.A[a].h, 1, "m")
                /\ S' = LET T == Fresh(S, Values(S, a), S.A[a].w, S.A[a].h, 1, "m") IN InPlace(T, Len(T.A))
             \/ \* into weights that are to be kept
                /\ Len(S.A) < MaxArrays
                /\ G' = Fresh(G, Work(Values(G, a)), G.A[a].w, G.A[a].h, 1, "m")
                /\ S' = LET T == IF WeightsCopied THEN Fresh(S, Values(S, a), S.A[a].w, S.A[a].h, 1, "m") ELSE Alias(S, a, "m")
                        IN InPlace(T, Len(T.A))
             \/ \* into weights in place: the result is the weights
                /\ Len(S.A) < MaxArrays
                /\ G' = LET T == Alias(G, a, "m") IN Overwrite(T, Len(T.A), Work(Values(T, a)))
                /\ S' = LET T == Alias(S, a, "m") IN InPlace(T, Len(T.A))
Next == Look \/ Call
Spec == Init /\ [][Next]_vars

Seen(T) == [a \in 1..Len(T.A) |-> <<Values(T, a), T.A[a].w, T.A[a].h>>]
Faithful == Seen(S) = Seen(G)
\* what is written through one window shows through exactly the windows that overlap it
Overlap(T, a, b) == T.A[a].b = T.A[b].b /\ PyRange(T.A[a].ix) \cap PyRange(T.A[b].ix) # {}
Apart == [][\A a \in 1..Len(S.A) : Seen(G)[a] # Seen(G)'[a] =>
              \E b \in 1..Len(S.A) : Overlap(G, a, b) /\ Seen(G)[b] # Seen(G)'[b] /\ Values(G', b) = Work(Values(G, b))]_vars
=============================================================================
