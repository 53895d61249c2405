INIT Init
NEXT Next
CONSTANT NMax = 4
CONSTANT EMax = 6
CONSTANT FREE = FALSE
CONSTANT EVEN = TRUE
INVARIANTS Pfaffian
CHECK_DEADLOCK FALSE
