SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "stencil"
 Guard = "in place"
INVARIANT Right
CHECK_DEADLOCK FALSE
