SPECIFICATION Spec
CONSTANTS W = 5 H = 4 Elev = {0,1,3} Modes = {"complete","selective"} MaxLens = {0,2} MaxDepths = {1,9}
INVARIANTS DoneDrains RaisedOnlyPits EdgesNotRaised LimitsKept LowWay
CHECK_DEADLOCK FALSE
