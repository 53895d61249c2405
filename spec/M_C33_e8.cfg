INIT Init
NEXT Next
CONSTANTS WHICH = "e8"
  WP = 1
  WQ = 0
INVARIANTS Sphere Size Odd Second Fourth Sixth
CHECK_DEADLOCK FALSE
