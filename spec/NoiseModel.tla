----------------------------- MODULE NoiseModel ----------------------------
(* The slice of noise is one surface: the cells on either side of a lattice  *)
(* line agree on it, and it stays between -1 and 1.                          *)
EXTENDS Noise, Sample, SequencesExt
CONSTANTS S, K, Seed, Wrong \* samples per cell, points tried, which, whether a corner is taken from the wrong place
VARIABLES q, at
All == SetToSeq(Points)
Some == LET k == SampleOf(Seed, K, Len(All) - 1) IN {All[k[i] + 1] : i \in 1..K}
Init == q \in [1..6 -> Some] /\ at = 0      \* 1 2 3 above 4 5 6
Next == at < S /\ at' = at + 1 /\ UNCHANGED q
Left == In(q[1], q[2], q[4], q[5], S, at, S)
Right == In(q[2], q[3], IF Wrong THEN q[6] ELSE q[5], q[6], 0, at, S)
OneSurface == Near(Left, Right)
Bounded == \A i \in 0..S : LET v == In(q[1], q[2], q[4], q[5], i, at, S) IN v <= One + 8 /\ v >= -One - 8
=============================================================================
