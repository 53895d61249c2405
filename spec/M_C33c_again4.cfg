INIT Init
NEXT Next
CONSTANTS WHICH = "again"
  D = 4
  LMAX = 3
INVARIANTS Even Count Moments Taken
CHECK_DEADLOCK FALSE
