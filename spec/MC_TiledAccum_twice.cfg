SPECIFICATION Spec
CONSTANTS
 W = 4
 H = 4
 TW = 2
 TH = 2
 Some = 1200
 NullSets = 1
 Twice = TRUE
 Diag = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
