INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS Group Fixes Flat
CHECK_DEADLOCK FALSE
