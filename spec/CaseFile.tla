----------------------------- MODULE CaseFile ------------------------------
(* Judging recorded behaviours.  The recorder writes one JSON object per    *)
(* line; TLC takes every one as an initial state and steps to its verdict:  *)
(* the set of reasons the specification has for rejecting it.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES case, verdict
Init == case \in 1..Len(Cases) /\ verdict = {"pending"}
Aborted(c) == {k \in {"crash", "exc"} : k \in DOMAIN c}
Next == /\ verdict = {"pending"}
        /\ LET c == Cases[case]
               v == IF Aborted(c) # {} THEN Aborted(c) ELSE Judge(c)
           IN verdict' = v /\ (IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", case, v>>))
        /\ UNCHANGED case
Accepted == verdict \in {{}, {"pending"}}
Why(b, s) == IF b THEN {} ELSE {s}
=============================================================================
