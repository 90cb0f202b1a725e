CONSTANTS W = 3 H = 3 Elev = {0,1}
INIT Init
NEXT Next
INVARIANTS Agree LakeRejected
CHECK_DEADLOCK FALSE
