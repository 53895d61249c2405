INIT Init
NEXT Next
CONSTANTS WHICH = "choose"
  D = 6
  LMAX = 6
INVARIANTS Even Count Moments Taken
CHECK_DEADLOCK FALSE
