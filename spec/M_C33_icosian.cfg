INIT Init
NEXT Next
CONSTANTS WHICH = "icosian"
  WP = 1
  WQ = 1
INVARIANTS Sphere Size Odd Second Fourth Sixth Eighth
CHECK_DEADLOCK FALSE
