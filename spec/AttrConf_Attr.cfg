CONSTANT Judge <- JudgeAttr
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
