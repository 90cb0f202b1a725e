SPECIFICATION Spec
CONSTANTS N = 3
 NF = 2
 SZ = 2
 NB = 6
 FreesForeign = FALSE
INVARIANTS NothingWrong ForeignStays OneOwner NoDangling Refines
VIEW View
CHECK_DEADLOCK FALSE
