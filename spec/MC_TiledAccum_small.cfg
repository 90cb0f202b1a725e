SPECIFICATION Spec
CONSTANTS
 W = 4
 H = 1
 TW = 2
 TH = 1
 Some = 0
 NullSets = 1
 Twice = FALSE
 Diag = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
