INIT Init
NEXT Next
CONSTANTS WHICH = "hurwitz"
  WP = 1
  WQ = 0
INVARIANTS Sphere Size Odd Second Fourth Pairs Mixed
CHECK_DEADLOCK FALSE
