INIT Init
NEXT Next
CONSTANT T = 3
CONSTANT T3 = 2
CONSTANT Diag = FALSE
INVARIANTS States BlochOK Metric Triangle Measured Pure
CHECK_DEADLOCK FALSE
