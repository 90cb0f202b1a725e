SPECIFICATION Spec
CONSTANTS N = 3
 Live = 3
 Sync = FALSE
 Loose = TRUE
 Deaf = FALSE
 Spread = FALSE
INVARIANTS Intact NotStuck EveryTile

CHECK_DEADLOCK FALSE
