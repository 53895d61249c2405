INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT L = 4
INVARIANTS TypeOK CAR Adjoint NumberCounts Particles
CHECK_DEADLOCK FALSE
