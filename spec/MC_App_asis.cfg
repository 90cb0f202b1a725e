CONSTANTS
 MaxFiles = 3
 Size = 3
 GrowTo = "end"
 MergeGeo = "asis"
 Forgets = FALSE
SPECIFICATION Spec
INVARIANTS Truthful Traced
PROPERTY Kept
CHECK_DEADLOCK FALSE
