SPECIFICATION Spec
CONSTANTS N = 3
 Live = 3
 Sync = TRUE
 Loose = FALSE
 Deaf = FALSE
 Spread = FALSE
INVARIANTS Intact NotStuck EveryTile
PROPERTY Ends
CHECK_DEADLOCK FALSE
