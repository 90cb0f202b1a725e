CONSTANT Judge <- JudgeThreads
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
