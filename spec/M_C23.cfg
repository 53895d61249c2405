INIT Init
NEXT Next
CONSTANT Dims <- DimsDef
CONSTANT L = 2
INVARIANTS Reduced BraKet TraceKept HermKept Products ThreeFactors Emit
CHECK_DEADLOCK FALSE
