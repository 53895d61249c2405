INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT W = {0, 1, 2}
CONSTANT CONVEX = FALSE
CONSTANT STRAIGHT = TRUE
CONSTANT JSONOUT = FALSE
INVARIANTS NamesReadable PlaneReadable NoCrossings WeightsReadable Emit
CHECK_DEADLOCK FALSE
