INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 2
INVARIANTS Homomorphism Involution CommuteOrAnti Orthogonal Emit
CHECK_DEADLOCK FALSE
