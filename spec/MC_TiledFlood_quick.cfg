SPECIFICATION Spec
CONSTANTS
 W = 6
 H = 3
 TW = 3
 TH = 3
 ZMAX = 3
 Some = 800
 NullSets = 0
 NoCorner = FALSE
 Coarse = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
