INIT Init
NEXT Next
CONSTANT Judge <- JudgeQueue
INVARIANT Accepted
CHECK_DEADLOCK FALSE
