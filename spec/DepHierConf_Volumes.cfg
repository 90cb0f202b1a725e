CONSTANT Judge <- JudgeVolumes
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
