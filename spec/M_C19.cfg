INIT Init
NEXT Next
CONSTANT NMax = 4
CONSTANT EMax = 6
CONSTANT FREE = TRUE
CONSTANT EVEN = FALSE
INVARIANTS Progress OddFaces RootFace Pfaffian Emit
CHECK_DEADLOCK FALSE
