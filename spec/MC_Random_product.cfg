SPECIFICATION Spec
CONSTANTS NT = 2
 SeedVals = {1, 2}
 MaxOps = 5
 Keyed = "product"
 Reach = "all"
 Paired = FALSE
INVARIANTS Different
CHECK_DEADLOCK FALSE
