SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS NeverBlocked Answers
CONSTRAINT StateBound
CHECK_DEADLOCK FALSE
