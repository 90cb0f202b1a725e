SPECIFICATION Spec
CONSTANTS W = 4
 H = 4
 Elev = {0,1,2}
 UsePit = TRUE
 Walled = TRUE
INVARIANTS NeverLowers EdgesKept QueueClosed DoneIsFill DoneLabels ClosedFinal
PROPERTY Monotone
CHECK_DEADLOCK FALSE
