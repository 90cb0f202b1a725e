SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "reduce"
 Guard = "as merged"
INVARIANT Right
CHECK_DEADLOCK FALSE
