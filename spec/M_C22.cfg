INIT Init
NEXT Next
CONSTANT Vals <- ValsDef
CONSTANT Ims <- ImsDef
CONSTANT L = 2
INVARIANTS OnLattice NothingSmall Close Idempotent OddSymmetric TextOK Emit
CHECK_DEADLOCK FALSE
