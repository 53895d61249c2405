INIT Init
NEXT Next
CONSTANT L = 5
CONSTANT Funs = {"f", "g"}
CONSTANT Seeds = {0, 7}
INVARIANTS Reproducible FollowsGenerator Advances Emit
CHECK_DEADLOCK FALSE
