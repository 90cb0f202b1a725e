CONSTANTS W = 6
 H = 1
 Elev = {0, 1, 2, 3}
 Oceans = {{1}, {3}}
 Topo = 8
 Rain = {0, 1, 4}
SPECIFICATION Spec
INVARIANTS HierarchyHolds VolumesHold FlowHolds WaterConserved OnlyTheFullSpill Confluent LevelsBounded
CHECK_DEADLOCK FALSE
