SPECIFICATION Spec
CONSTANTS BITS = 3
 MaxSize = 6
INVARIANTS Holds Placed
PROPERTY Delivers
CHECK_DEADLOCK FALSE
