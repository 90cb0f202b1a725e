SPECIFICATION Spec
CONSTANTS N = 2
 NF = 1
 SZ = 2
 NB = 4
 FreesForeign = FALSE
INVARIANTS NothingWrong ForeignStays OneOwner NoDangling Refines
VIEW View
CHECK_DEADLOCK FALSE
