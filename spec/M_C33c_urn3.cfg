INIT Init
NEXT Next
CONSTANTS WHICH = "urn"
  D = 3
  LMAX = 7
INVARIANTS Even Count Moments Taken
CHECK_DEADLOCK FALSE
