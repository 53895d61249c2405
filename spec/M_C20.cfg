INIT Init
NEXT Next
CONSTANT NMax = 5
CONSTANT EMax = 9
CONSTANT ANY = FALSE
CONSTANT JSONOUT = TRUE
INVARIANTS EveryDartOnce Euler DualTree Emit
CHECK_DEADLOCK FALSE
