INIT Init
NEXT Next
CONSTANT Judge <- JudgeSets
INVARIANT Accepted
CHECK_DEADLOCK FALSE
