INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 2
INVARIANTS NormOK Parity Projector WickExact
CHECK_DEADLOCK FALSE
