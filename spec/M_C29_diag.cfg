INIT Init
NEXT Next
CONSTANT T = 4
CONSTANT T3 = 2
CONSTANT Diag = TRUE
INVARIANTS States BlochOK Metric Triangle Measured Pure
CHECK_DEADLOCK FALSE
