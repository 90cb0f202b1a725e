INIT Init
NEXT Next
CONSTANT Judge <- JudgeArray
INVARIANT Accepted
CHECK_DEADLOCK FALSE
