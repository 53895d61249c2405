INIT Init
NEXT Next
CONSTANT NMax = 5
CONSTANT EMax = 7
CONSTANT FREE = FALSE
CONSTANT EVEN = FALSE
INVARIANTS Progress OddFaces RootFace Pfaffian
CHECK_DEADLOCK FALSE
