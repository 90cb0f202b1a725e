------------------------------- MODULE Sample -------------------------------
(* Reproducible samples of large sets of rasters: sequence number k of values *)
(* 0..top, drawn with a small linear congruential generator.  (RandomSubset   *)
(* of sets beyond 2^31 elements gives nearly equal ones.)                    *)
EXTENDS Integers, Sequences
RECURSIVE Draw(_, _, _, _)
Draw(s, n, top, acc) ==
  IF n = 0 THEN acc
  ELSE LET t == (s * 171 + 11213) % 53125 IN Draw(t, n - 1, top, Append(acc, (t * (top + 1)) \div 53125))
SampleOf(k, n, top) == Draw((k * 7919) % 53125, n, top, <<>>)
Samples(many, n, top) == {SampleOf(k, n, top) : k \in 1..many}
=============================================================================
