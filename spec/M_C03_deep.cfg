INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS Homomorphism Involution CommuteOrAnti Orthogonal
CHECK_DEADLOCK FALSE
