INIT Init
NEXT Next
CONSTANT NMax = 5
CONSTANT EMax = 9
CONSTANT ANY = TRUE
CONSTANT JSONOUT = FALSE
INVARIANTS EveryDartOnce Euler DualTree Emit
CHECK_DEADLOCK FALSE
