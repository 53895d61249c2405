INIT Init
NEXT Next
CONSTANT N = 1
CONSTANT L = 3
INVARIANTS Composes SCovariant Scalar CanonicalS Emit
CHECK_DEADLOCK FALSE
