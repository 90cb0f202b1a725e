SPECIFICATION Spec
CONSTANTS W = 3
 H = 2
 Vals = {1, 2}
 Depth = 4
INVARIANTS Involutions Independent CopiesEqual WritesThrough OldKept
CHECK_DEADLOCK FALSE
