SPECIFICATION Spec
CONSTANTS
 W = 4
 H = 2
 TW = 2
 TH = 2
 ZMAX = 1
 Some = 0
 NullSets = 1
 NoCorner = FALSE
 Coarse = FALSE
INVARIANTS Right NeverStuck
CHECK_DEADLOCK FALSE
