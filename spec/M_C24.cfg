INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 3
INVARIANTS Valid Product Orthogonal MovesBasis Sign SumOfPerms Assoc Mixed Emit
CHECK_DEADLOCK FALSE
