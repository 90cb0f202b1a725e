SPECIFICATION Spec
CONSTANTS NT = 2
 SeedVals = {1, 2}
 MaxOps = 6
 Keyed = "pair"
 Reach = "running"
 Paired = FALSE
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
