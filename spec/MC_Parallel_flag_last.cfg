SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "flag"
 Guard = "last"
INVARIANT Right
CHECK_DEADLOCK FALSE
