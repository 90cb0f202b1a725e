CONSTANTS W = 7
 H = 1
 Elev = {0, 1, 2, 3, 4}
 Oceans = {{1}, {4}}
 Topo = 8
 Rain = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS HierarchyHolds VolumesHold FlowHolds WaterConserved OnlyTheFullSpill Confluent LevelsBounded
CHECK_DEADLOCK FALSE
