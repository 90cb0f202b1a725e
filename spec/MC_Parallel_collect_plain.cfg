SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "collect"
 Guard = "plain"
INVARIANT Right
CHECK_DEADLOCK FALSE
