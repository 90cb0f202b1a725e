SPECIFICATION Spec
CONSTANTS CopyBack = TRUE WeightsCopied = TRUE MaxArrays = 4 MaxCalls = 3
INVARIANT Faithful
PROPERTY Apart
CHECK_DEADLOCK FALSE
