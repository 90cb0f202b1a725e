SPECIFICATION Spec
CONSTANTS N = 3
 Live = 3
 Sync = FALSE
 Loose = FALSE
 Deaf = FALSE
 Spread = FALSE
INVARIANTS Intact NotStuck EveryTile
PROPERTY Ends
CHECK_DEADLOCK FALSE
