SPECIFICATION Spec
CONSTANTS
 W = 6
 H = 4
 TW = 3
 TH = 2
 Some = 12000
 NullSets = 1
 Twice = FALSE
 Diag = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
