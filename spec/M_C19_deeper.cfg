INIT Init
NEXT Next
CONSTANT NMax = 5
CONSTANT EMax = 8
CONSTANT FREE = FALSE
CONSTANT EVEN = FALSE
INVARIANTS Progress OddFaces RootFace Pfaffian
CHECK_DEADLOCK FALSE
