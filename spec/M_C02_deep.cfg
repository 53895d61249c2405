INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 4
INVARIANTS Involution Anticommute Recover Parity
CHECK_DEADLOCK FALSE
