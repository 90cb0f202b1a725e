SPECIFICATION Spec
CONSTANTS N = 4
 Live = 5
 Sync = FALSE
 Loose = FALSE
 Deaf = FALSE
 Spread = FALSE
INVARIANTS Intact NotStuck EveryTile

CHECK_DEADLOCK FALSE
