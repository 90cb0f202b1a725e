INIT Init
NEXT Next
CONSTANT Judge <- JudgeLru
INVARIANT Accepted
CHECK_DEADLOCK FALSE
