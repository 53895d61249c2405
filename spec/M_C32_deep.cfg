INIT Init
NEXT Next
CONSTANT N = 4
INVARIANTS Group FixesG Flat
CHECK_DEADLOCK FALSE
