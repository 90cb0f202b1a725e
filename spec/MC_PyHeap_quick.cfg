SPECIFICATION Spec
CONSTANTS CopyBack = TRUE WeightsCopied = TRUE MaxArrays = 3 MaxCalls = 2
INVARIANT Faithful
PROPERTY Apart
CHECK_DEADLOCK FALSE
