SPECIFICATION Spec
CONSTANTS W = 4 H = 4 Elev = {0,2} Modes = {"complete","selective"} MaxLens = {0,2} MaxDepths = {1}
INVARIANTS DoneDrains RaisedOnlyPits EdgesNotRaised LimitsKept LowWay
CHECK_DEADLOCK FALSE
