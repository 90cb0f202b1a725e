SPECIFICATION Spec
CONSTANTS BITS = 3
 MaxSize = 4
INVARIANTS Holds Placed
PROPERTY Delivers
CHECK_DEADLOCK FALSE
