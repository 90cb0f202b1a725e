CONSTANT Judge <- JudgeWsd
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
