INIT Init
NEXT Next
CONSTANTS WHICH = "circle"
  WP = 0
  WQ = 3
INVARIANTS Sphere Size Odd Second Fourth Sixth Eighth
CHECK_DEADLOCK FALSE
