CONSTANT Judge <- JudgeEps
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
