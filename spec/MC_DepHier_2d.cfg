CONSTANTS W = 4
 H = 3
 Elev = {0, 2}
 Oceans = {{1}, {6}}
 Topo = 4
 Rain = {0, 1, 5}
SPECIFICATION Spec
INVARIANTS HierarchyHolds VolumesHold FlowHolds WaterConserved OnlyTheFullSpill Confluent LevelsBounded
CHECK_DEADLOCK FALSE
