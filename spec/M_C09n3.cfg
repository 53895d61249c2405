INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 2
INVARIANTS ThreeLayouts Emit
CHECK_DEADLOCK FALSE
