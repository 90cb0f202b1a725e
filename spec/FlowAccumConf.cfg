CONSTANT Judge <- JudgeAccum
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
