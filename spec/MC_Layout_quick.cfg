INIT Init
NEXT Next
CONSTANTS MaxW = 3
 MaxH = 2
 Names <- NamesUsed
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
