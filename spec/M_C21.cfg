INIT Init
NEXT Next
CONSTANT Ns = {0, 1, 2, 3, 4, 5}
CONSTANT EMax = 10
CONSTANT TMax = 6
INVARIANTS MatchingsRight EachIsPerfect AllOfThem CountIsHafnian DepthRight Emit
CHECK_DEADLOCK FALSE
