INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 2
CONSTANT Kinds = {"int", "mix"}
INVARIANTS Anti FlatIfGaussian Rotates Bounded RankBound FewSites
CHECK_DEADLOCK FALSE
