CONSTANT Judge <- JudgePy
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
