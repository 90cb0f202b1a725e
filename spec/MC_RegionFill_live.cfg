SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 Topo = 8
 MaxSeeds = 2
 Look = "both"
INVARIANTS Right Only Bounded Closed Exposure
PROPERTY Ends
CHECK_DEADLOCK FALSE
