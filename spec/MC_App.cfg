CONSTANTS
 MaxFiles = 4
 Size = 2
 GrowTo = "end"
 MergeGeo = "turned"
 Forgets = FALSE
SPECIFICATION Spec
INVARIANTS Truthful Traced
PROPERTY Kept
CHECK_DEADLOCK FALSE
