INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 2
INVARIANTS AdjointLifts DirectLifts WalkIsDense HV Hermitian Heisenberg ParityEven Conserves
CHECK_DEADLOCK FALSE
