INIT Init
NEXT Next
INVARIANT Accepted
CONSTANT Judge <- JudgeIO
CHECK_DEADLOCK FALSE
