INIT Init
NEXT Next
CONSTANT Judge <- JudgeLayout
INVARIANT Accepted
CHECK_DEADLOCK FALSE
