INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT T = 5
INVARIANTS TVok BCok KLok JSok JSEntropy
CHECK_DEADLOCK FALSE
