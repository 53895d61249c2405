INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT T = 8
INVARIANTS Bounds NonIncreasing Symmetric Additive Deterministic Uniform Spread Collision Matching
CHECK_DEADLOCK FALSE
