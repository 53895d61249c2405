INIT Init
NEXT Next
CONSTANT D = 4
CONSTANT L = 3
CONSTANT K = 4
CONSTANT R = 1
INVARIANTS Unitary NormKept Stationary Line UnitOK
CHECK_DEADLOCK FALSE
