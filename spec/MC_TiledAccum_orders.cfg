SPECIFICATION Spec
CONSTANTS
 W = 3
 H = 2
 TW = 2
 TH = 1
 Some = 0
 NullSets = 1
 Twice = FALSE
 Diag = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
