CONSTANT Judge <- JudgeMetric
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
