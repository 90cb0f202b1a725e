CONSTANTS W = 3
 H = 2
 MaxOut = 2
 NDmax = 1
SPECIFICATION Spec
INVARIANTS ReadyFinal DoneRight
CHECK_DEADLOCK FALSE
