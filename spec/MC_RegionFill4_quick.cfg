SPECIFICATION Spec
CONSTANTS W = 3
 H = 2
 Topo = 4
 MaxSeeds = 2
 Look = "both"
INVARIANTS Right Only Bounded Closed Exposure

CHECK_DEADLOCK FALSE
