INIT Init
NEXT Next
CONSTANT NMax = 6
CONSTANT EMax = 10
CONSTANT ANY = FALSE
CONSTANT JSONOUT = TRUE
INVARIANTS EveryDartOnce Euler DualTree Emit
CHECK_DEADLOCK FALSE
