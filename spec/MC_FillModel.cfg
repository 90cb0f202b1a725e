INIT Init
NEXT Next
CONSTANTS W = 4
 H = 3
 Elev = {0,1}
INVARIANTS Agree LakeRejected
CHECK_DEADLOCK FALSE
