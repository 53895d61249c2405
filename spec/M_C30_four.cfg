INIT Init
NEXT Next
CONSTANT N = 4
CONSTANT L = 1
CONSTANT Kinds = {"int", "mix"}
INVARIANTS Anti FlatIfGaussian Rotates Bounded RankBound FewSites Emit
CHECK_DEADLOCK FALSE
