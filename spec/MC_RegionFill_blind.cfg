SPECIFICATION Spec
CONSTANTS W = 3
 H = 2
 Topo = 8
 MaxSeeds = 1
 Look = "check"
INVARIANT Right

CHECK_DEADLOCK FALSE
