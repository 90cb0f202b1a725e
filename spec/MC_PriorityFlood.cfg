SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
 Elev = {0,1}
 UsePit = TRUE
 Walled = FALSE
INVARIANTS NeverLowers EdgesKept QueueClosed DoneIsFill DoneLabels
PROPERTY Monotone
CHECK_DEADLOCK FALSE
