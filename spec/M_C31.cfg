INIT Init
NEXT Next
CONSTANT D = 3
CONSTANT L = 2
CONSTANT K = 4
CONSTANT R = 1
INVARIANTS Unitary NormKept Stationary Line UnitOK Emit
CHECK_DEADLOCK FALSE
