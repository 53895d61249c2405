INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 1
CONSTANT EMax = 2
CONSTANT Loose = FALSE
INVARIANTS LiftFollows Canonical AdjointPairs Raises SumOfModes Moments Emit
CHECK_DEADLOCK FALSE
