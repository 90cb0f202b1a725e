SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS NeverBlocked Answers
CONSTRAINT StateBound
CHECK_DEADLOCK FALSE
