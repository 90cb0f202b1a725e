SPECIFICATION Spec
CONSTANTS N = 3
 Live = 3
 Sync = TRUE
 Loose = FALSE
 Deaf = TRUE
 Spread = FALSE
INVARIANTS Intact NotStuck EveryTile

CHECK_DEADLOCK FALSE
