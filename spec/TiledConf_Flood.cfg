CONSTANT Judge <- JudgeFlood
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
