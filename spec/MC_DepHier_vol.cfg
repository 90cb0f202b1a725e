CONSTANTS W = 3
 H = 3
 Elev = {0, 1, 2, 3}
 Oceans = {{1}, {5}}
 Topo = 8
 Rain = {}
SPECIFICATION Spec
INVARIANTS VolumesHold FlowHolds
CHECK_DEADLOCK FALSE
