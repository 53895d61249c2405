INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT L = 4
INVARIANTS Valid Product Orthogonal MovesBasis Sign SumOfPerms Assoc Mixed
CHECK_DEADLOCK FALSE
