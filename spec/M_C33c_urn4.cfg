INIT Init
NEXT Next
CONSTANTS WHICH = "urn"
  D = 4
  LMAX = 5
INVARIANTS Even Count Moments Taken
CHECK_DEADLOCK FALSE
