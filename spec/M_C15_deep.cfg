INIT Init
NEXT Next
CONSTANT L = 5
CONSTANT NMax = 6
INVARIANTS Skew PfTracked PfSquaredIsDet SgnTracked Emit
CHECK_DEADLOCK FALSE
