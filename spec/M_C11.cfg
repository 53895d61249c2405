INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS Unitary RotatesModes ParityEven SpecialOrthogonal
CHECK_DEADLOCK FALSE
