INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT T = 4
INVARIANTS TVok BCok KLok JSok JSEntropy Emit
CHECK_DEADLOCK FALSE
