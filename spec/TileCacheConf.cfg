INIT Init
NEXT Next
INVARIANT Accepted
CONSTANT Judge <- JudgeTiles
CHECK_DEADLOCK FALSE
