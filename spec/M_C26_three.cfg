INIT Init
NEXT Next
CONSTANT Ns = {3}
CONSTANT L = 2
INVARIANTS Normalised Stabilizer ZeroIff CliffordInvariant Products
CHECK_DEADLOCK FALSE
