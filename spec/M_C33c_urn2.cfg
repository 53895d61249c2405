INIT Init
NEXT Next
CONSTANTS WHICH = "urn"
  D = 2
  LMAX = 10
INVARIANTS Even Count Moments Taken
CHECK_DEADLOCK FALSE
