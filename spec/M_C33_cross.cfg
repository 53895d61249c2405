INIT Init
NEXT Next
CONSTANTS WHICH = "cross"
  WP = 1
  WQ = 0
INVARIANTS Sphere Size Second Fourth
CHECK_DEADLOCK FALSE
