SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 Vals = {0, 1}
 Depth = 3
INVARIANTS Involutions Independent CopiesEqual WritesThrough OldKept
CHECK_DEADLOCK FALSE
