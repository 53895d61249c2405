INIT Init
NEXT Next
CONSTANT Ns = {1, 2}
CONSTANT L = 4
INVARIANTS Normalised Stabilizer ZeroIff CliffordInvariant Products
CHECK_DEADLOCK FALSE
