SPECIFICATION Spec
CONSTANTS Heights = {0, 1}
 Lengths = {1, 2}
 Threads = TRUE
INVARIANTS Swept Turned Mirrored Raised Agree Planes Roots
CHECK_DEADLOCK FALSE
