SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 4
 Algo = "reduce"
 Guard = "sorted"
INVARIANT Right
INVARIANT Once
INVARIANT Alone
INVARIANT Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
