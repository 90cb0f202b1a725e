SPECIFICATION Spec
CONSTANTS Tiles = {1, 2, 3, 4}
 Null = {3}
 Vals = {0, 1}
 Cap = 2
 Depth = 12
 Fault = "none"
 ReadOnly = FALSE
INVARIANTS Transparent Bounded Kept NullUntouched
CHECK_DEADLOCK FALSE
