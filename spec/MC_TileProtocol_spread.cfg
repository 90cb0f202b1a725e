SPECIFICATION Spec
CONSTANTS N = 3
 Live = 3
 Sync = FALSE
 Loose = FALSE
 Deaf = FALSE
 Spread = TRUE
INVARIANTS Intact NotStuck EveryTile

CHECK_DEADLOCK FALSE
