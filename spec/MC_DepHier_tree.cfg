CONSTANTS W = 8
 H = 1
 Elev = {0, 1, 2, 3}
 Oceans = {{1}, {1, 8}, {4}}
 Topo = 8
 Rain = {}
SPECIFICATION Spec
INVARIANTS HierarchyHolds
CHECK_DEADLOCK FALSE
