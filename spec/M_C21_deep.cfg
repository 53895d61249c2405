INIT Init
NEXT Next
CONSTANT Ns = {6}
CONSTANT EMax = 9
CONSTANT TMax = 8
INVARIANTS MatchingsRight EachIsPerfect AllOfThem CountIsHafnian DepthRight
CHECK_DEADLOCK FALSE
