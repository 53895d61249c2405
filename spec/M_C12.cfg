INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS NormOK Parity Projector WickExact
CHECK_DEADLOCK FALSE
