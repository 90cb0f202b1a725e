SPECIFICATION Spec
CONSTANTS Heights = {0, 1, 3}
 Lengths = {1, 3}
 Threads = TRUE
INVARIANTS Swept Turned Mirrored Raised Agree Planes Roots
CHECK_DEADLOCK FALSE
