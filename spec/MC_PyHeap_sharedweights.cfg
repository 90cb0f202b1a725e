SPECIFICATION Spec
CONSTANTS CopyBack = TRUE WeightsCopied = FALSE MaxArrays = 3 MaxCalls = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
