SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 4
 Algo = "flag"
 Guard = "or"
INVARIANT Right
INVARIANT Once
INVARIANT Alone
INVARIANT Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
