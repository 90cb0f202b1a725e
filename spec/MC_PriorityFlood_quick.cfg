SPECIFICATION Spec
CONSTANTS W = 4
 H = 4
 Elev = {0,2}
 UsePit = TRUE
 Walled = TRUE
INVARIANTS NeverLowers EdgesKept QueueClosed DoneIsFill DoneLabels
PROPERTY Monotone
CHECK_DEADLOCK FALSE
