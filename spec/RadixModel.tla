---------------------------- MODULE RadixModel -----------------------------
(* The monotone radix queue: keys of BITS bits in buckets by the highest bit *)
(* in which they differ from the last key delivered.  Explored exhaustively  *)
(* against a plain multiset of keys.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BITS, MaxSize
VARIABLES last, bucket, bmin, bag, answer
vars == <<last, bucket, bmin, bag, answer>>
Keys == 0..(2 ^ BITS - 1)
NoKey == 2 ^ BITS
\* bucket a key belongs in: 0 if equal to the last key, else 1 + highest differing bit
Bucket(x, l) == IF x = l THEN 0 ELSE CHOOSE k \in 1..BITS : x \div (2 ^ k) = l \div (2 ^ k) /\ (x \div (2 ^ (k - 1))) # (l \div (2 ^ (k - 1)))
Size == LET RECURSIVE S(_)
            S(k) == IF k < 0 THEN 0 ELSE Len(bucket[k]) + S(k - 1)
        IN S(BITS)
Init == last = 0 /\ bucket = [k \in 0..BITS |-> <<>>] /\ bmin = [k \in 0..BITS |-> NoKey] /\ bag = [x \in Keys |-> 0] /\ answer = <<"none">>
Push(x) == /\ x >= last /\ Size < MaxSize
           /\ LET k == Bucket(x, last) IN bucket' = [bucket EXCEPT ![k] = Append(@, x)] /\ bmin' = [bmin EXCEPT ![k] = IF x < @ THEN x ELSE @]
           /\ bag' = [bag EXCEPT ![x] = @ + 1] /\ answer' = <<"push">> /\ UNCHANGED last
FirstUsed == CHOOSE k \in 0..BITS : bucket[k] # <<>> /\ \A j \in 0..(k - 1) : bucket[j] = <<>>
\* moving the first non-empty bucket's keys to where they belong relative to their minimum
Pulled == IF bucket[0] # <<>> THEN [l |-> last, b |-> bucket, m |-> bmin] ELSE
  LET i == FirstUsed
      l == bmin[i]
      RECURSIVE Move(_, _, _)
      Move(s, b, m) == IF s = <<>> THEN [l |-> l, b |-> [b EXCEPT ![i] = <<>>], m |-> [m EXCEPT ![i] = NoKey]]
                       ELSE LET k == Bucket(s[1], l) IN Move(Tail(s), [b EXCEPT ![k] = Append(@, s[1])], [m EXCEPT ![k] = IF s[1] < @ THEN s[1] ELSE @])
  IN Move(bucket[i], bucket, [bmin EXCEPT ![0] = NoKey])
Pop == /\ Size > 0
       /\ LET p == Pulled IN /\ last' = p.l /\ bmin' = p.m /\ answer' = <<"key", p.b[0][Len(p.b[0])]>>
                             /\ bucket' = [p.b EXCEPT ![0] = SubSeq(@, 1, Len(@) - 1)]
                             /\ bag' = [bag EXCEPT ![p.b[0][Len(p.b[0])]] = @ - 1]
Min == /\ Size > 0 /\ answer' = <<"min", bmin[FirstUsed]>> /\ UNCHANGED <<last, bucket, bmin, bag>>
Next == Pop \/ Min \/ \E x \in Keys : Push(x)
Spec == Init /\ [][Next]_vars
Lowest(b) == CHOOSE x \in Keys : b[x] > 0 /\ \A y \in Keys : b[y] > 0 => x <= y
Delivers == [][(answer'[1] \in {"key", "min"} /\ Size > 0 /\ answer' # answer) => answer'[2] = Lowest(bag)]_vars
Holds == \A x \in Keys : bag[x] = LET RECURSIVE C(_)
                                      C(k) == IF k < 0 THEN 0 ELSE Cardinality({i \in 1..Len(bucket[k]) : bucket[k][i] = x}) + C(k - 1)
                                  IN C(BITS)
Placed == \A k \in 0..BITS : \A i \in 1..Len(bucket[k]) : k # 0 => Bucket(bucket[k][i], last) = k
=============================================================================
