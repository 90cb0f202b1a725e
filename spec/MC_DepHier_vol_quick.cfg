CONSTANTS W = 4
 H = 2
 Elev = {0, 1, 2}
 Oceans = {{2}}
 Topo = 8
 Rain = {}
SPECIFICATION Spec
INVARIANTS VolumesHold FlowHolds
CHECK_DEADLOCK FALSE
