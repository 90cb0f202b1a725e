CONSTANTS W = 3
 H = 2
 MaxOut = 1
 NDmax = 2
SPECIFICATION Spec
INVARIANTS ReadyFinal DoneRight
CHECK_DEADLOCK FALSE
