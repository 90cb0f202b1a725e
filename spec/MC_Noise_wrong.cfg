INIT Init
NEXT Next
CONSTANT S = 4 K = 4 Seed = 1 Wrong = TRUE
INVARIANTS OneSurface Bounded
CHECK_DEADLOCK FALSE
