INIT Init
NEXT Next
CONSTANT L = 4
CONSTANT Funs = {"f", "g"}
CONSTANT Ins = {1, 2}
CONSTANT Vals = {1, 2}
CONSTANT CACHE = "identity"
INVARIANTS InputsKept Repeatable
CHECK_DEADLOCK FALSE
