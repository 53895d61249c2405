INIT Init
NEXT Next
CONSTANT NQ = 1
INVARIANTS All ThirdDesign Coherences Overlap Bounds
CHECK_DEADLOCK FALSE
