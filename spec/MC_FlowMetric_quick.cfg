CONSTANT Elev = {0, 1, 3}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
