SPECIFICATION Spec
CONSTANTS W = 2
 H = 1
 Vals = {0, 1}
 Depth = 6
INVARIANTS NoLostModification RoundTrips Windows
PROPERTY HistoryGrows
CHECK_DEADLOCK FALSE
