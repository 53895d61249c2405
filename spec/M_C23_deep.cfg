INIT Init
NEXT Next
CONSTANT Dims <- DimsDeep
CONSTANT L = 2
INVARIANTS Reduced BraKet TraceKept HermKept Products ThreeFactors
CHECK_DEADLOCK FALSE
