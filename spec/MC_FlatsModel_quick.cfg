CONSTANTS W = 5 H = 4 Elev = {0,1,2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
