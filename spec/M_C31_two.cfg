INIT Init
NEXT Next
CONSTANT D = 2
CONSTANT L = 3
CONSTANT K = 2
CONSTANT R = 2
INVARIANTS Unitary NormKept Stationary Line UnitOK Emit
CHECK_DEADLOCK FALSE
