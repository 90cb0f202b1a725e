CONSTANT Judge <- JudgeMask
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
