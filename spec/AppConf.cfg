CONSTANT Judge <- JudgeApp
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
