CONSTANT Judge <- JudgeRegion
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
