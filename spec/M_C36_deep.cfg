INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT W = {0, 1}
CONSTANT CONVEX = FALSE
CONSTANT STRAIGHT = FALSE
CONSTANT JSONOUT = TRUE
INVARIANTS NamesReadable PlaneReadable NoCrossings WeightsReadable Emit
CHECK_DEADLOCK FALSE
