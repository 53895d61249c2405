INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 2
CONSTANT EMax = 1
CONSTANT Loose = FALSE
INVARIANTS LiftFollows Canonical AdjointPairs Raises SumOfModes Moments
CHECK_DEADLOCK FALSE
