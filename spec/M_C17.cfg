INIT Init
NEXT Next
CONSTANT L = 4
CONSTANT NMax = 4
INVARIANTS DetTracked PermTracked Emit
CHECK_DEADLOCK FALSE
