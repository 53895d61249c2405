INIT Init
NEXT Next
CONSTANT Ns = {1, 2}
CONSTANT L = 3
INVARIANTS Normalised Stabilizer ZeroIff CliffordInvariant Products Emit
CHECK_DEADLOCK FALSE
