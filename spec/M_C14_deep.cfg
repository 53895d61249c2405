INIT Init
NEXT Next
CONSTANT L = 6
CONSTANT Funs = {"f", "g"}
CONSTANT Ins = {1, 2}
CONSTANT Vals = {1, 2}
CONSTANT CACHE = "none"
INVARIANTS InputsKept Repeatable Emit
CHECK_DEADLOCK FALSE
