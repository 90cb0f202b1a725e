CONSTANTS W = 5 H = 5 Elev = {0,1}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
