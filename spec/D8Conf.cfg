CONSTANT Judge <- JudgeD8
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
