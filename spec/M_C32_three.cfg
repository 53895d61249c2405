INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Group Fixes Flat
CHECK_DEADLOCK FALSE
