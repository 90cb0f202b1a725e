INIT Init
NEXT Next
CONSTANTS MaxW = 3
 MaxH = 3
 Names <- NamesUsed
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
