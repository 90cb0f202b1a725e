INIT Init
NEXT Next
CONSTANT S = 8 K = 7 Seed = 2 Wrong = FALSE
INVARIANTS OneSurface Bounded
CHECK_DEADLOCK FALSE
