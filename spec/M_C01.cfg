INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 3
INVARIANTS TypeOK CAR Adjoint NumberCounts Particles Emit
CHECK_DEADLOCK FALSE
