SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 N = 3
 Algo = "stencil"
 Guard = "apart"
INVARIANT Right
INVARIANT Once
INVARIANT Alone
INVARIANT Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
