INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT W = {0}
CONSTANT CONVEX = TRUE
CONSTANT STRAIGHT = FALSE
CONSTANT JSONOUT = FALSE
INVARIANTS NamesReadable PlaneReadable NoCrossings WeightsReadable Emit
CHECK_DEADLOCK FALSE
