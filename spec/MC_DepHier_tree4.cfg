CONSTANTS W = 3
 H = 3
 Elev = {0, 1, 2, 3}
 Oceans = {{1}, {2}}
 Topo = 4
 Rain = {}
SPECIFICATION Spec
INVARIANTS HierarchyHolds
CHECK_DEADLOCK FALSE
