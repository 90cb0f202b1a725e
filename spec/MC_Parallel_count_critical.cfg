SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 4
 Algo = "count"
 Guard = "critical"
INVARIANT Right
INVARIANT Once
INVARIANT Alone
INVARIANT Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
