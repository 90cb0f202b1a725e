SPECIFICATION Spec
CONSTANTS
 W = 6
 H = 6
 TW = 3
 TH = 3
 ZMAX = 3
 Some = 100
 NullSets = 0
 NoCorner = FALSE
 Coarse = TRUE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
