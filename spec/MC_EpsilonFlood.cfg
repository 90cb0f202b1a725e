SPECIFICATION Spec
CONSTANTS W = 4
 H = 4
 Elev = {0,1,2,3,5}
 WithND = TRUE
INVARIANTS NeverLowers Kept ParentBelow AStep DoneDrains
CHECK_DEADLOCK FALSE
