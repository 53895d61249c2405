INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 4
CONSTANT EMax = 2
CONSTANT Loose = FALSE
INVARIANTS LiftFollows Canonical AdjointPairs Raises SumOfModes Moments
CHECK_DEADLOCK FALSE
