INIT Init
NEXT Next
CONSTANT S = 4 K = 5 Seed = 1 Wrong = FALSE
INVARIANTS OneSurface Bounded
CHECK_DEADLOCK FALSE
