CONSTANT Elev = {0, 1, 2, 5}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
