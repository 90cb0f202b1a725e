SPECIFICATION Spec
CONSTANTS W = 4
 H = 4
 Elev = {0,1,3}
 WithND = FALSE
INVARIANTS NeverLowers Kept ParentBelow AStep DoneDrains
CHECK_DEADLOCK FALSE
