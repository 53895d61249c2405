INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 6
INVARIANTS Unitary RotatesModes ParityEven SpecialOrthogonal
CHECK_DEADLOCK FALSE
