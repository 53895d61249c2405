INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 3
INVARIANTS OmegaUnitary ThreeLayouts Symmetric Emit
CHECK_DEADLOCK FALSE
