INIT Init
NEXT Next
CONSTANT N = 1
INVARIANTS Group Fixes Flat
CHECK_DEADLOCK FALSE
