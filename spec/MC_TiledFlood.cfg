SPECIFICATION Spec
CONSTANTS
 W = 6
 H = 6
 TW = 3
 TH = 3
 ZMAX = 5
 Some = 500
 NullSets = 1
 NoCorner = FALSE
 Coarse = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
