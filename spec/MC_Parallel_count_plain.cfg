SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "count"
 Guard = "plain"
INVARIANT Right
CHECK_DEADLOCK FALSE
