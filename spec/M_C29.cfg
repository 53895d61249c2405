INIT Init
NEXT Next
CONSTANT T = 2
CONSTANT T3 = 1
CONSTANT Diag = FALSE
INVARIANTS States BlochOK Metric Triangle Measured Pure Emit
CHECK_DEADLOCK FALSE
