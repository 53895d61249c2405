INIT Init
NEXT Next
CONSTANT NQ = 2
INVARIANTS All ThirdDesign Coherences Overlap Bounds
CHECK_DEADLOCK FALSE
