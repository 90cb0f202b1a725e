SPECIFICATION Spec
CONSTANTS CopyBack = FALSE WeightsCopied = TRUE MaxArrays = 3 MaxCalls = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
