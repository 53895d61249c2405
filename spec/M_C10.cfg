INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS Closed TransposeToo Emit
CHECK_DEADLOCK FALSE
