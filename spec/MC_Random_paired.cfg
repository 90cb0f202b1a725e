SPECIFICATION Spec
CONSTANTS NT = 2
 SeedVals = {1, 2}
 MaxOps = 5
 Keyed = "pair"
 Reach = "all"
 Paired = TRUE
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
