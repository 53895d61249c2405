INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT T = 5
INVARIANTS Bounds NonIncreasing Symmetric Additive Deterministic Uniform Spread Collision Matching Emit
CHECK_DEADLOCK FALSE
