INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 4
INVARIANTS Involution Anticommute Recover Parity Emit
CHECK_DEADLOCK FALSE
