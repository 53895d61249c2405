INIT Init
NEXT Next
CONSTANT N = 1
CONSTANT L = 3
INVARIANTS AdjointLifts DirectLifts WalkIsDense HV Hermitian Heisenberg ParityEven Conserves Emit
CHECK_DEADLOCK FALSE
