INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 4
INVARIANTS Closed TransposeToo Emit
CHECK_DEADLOCK FALSE
