INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS Composes SCovariant Scalar CanonicalS
CHECK_DEADLOCK FALSE
