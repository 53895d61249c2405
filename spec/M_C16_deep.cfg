INIT Init
NEXT Next
CONSTANT L = 5
CONSTANT NMax = 5
INVARIANTS Symmetric HfTracked OddVanishes Emit
CHECK_DEADLOCK FALSE
