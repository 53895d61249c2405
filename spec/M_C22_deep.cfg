INIT Init
NEXT Next
CONSTANT Vals <- ValsDeep
CONSTANT Ims <- ImsDeep
CONSTANT L = 2
INVARIANTS OnLattice NothingSmall Close Idempotent OddSymmetric TextOK
CHECK_DEADLOCK FALSE
