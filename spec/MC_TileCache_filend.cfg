SPECIFICATION Spec
CONSTANTS Tiles = {1, 2, 3}
 Null = {3}
 Vals = {0, 1}
 Cap = 1
 Depth = 7
 Fault = "filend"
 ReadOnly = FALSE
INVARIANTS Transparent Bounded Kept NullUntouched
CHECK_DEADLOCK FALSE
