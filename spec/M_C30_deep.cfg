INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
CONSTANT Kinds = {"rot", "int", "mix"}
INVARIANTS Anti FlatIfGaussian Rotates Bounded RankBound FewSites
CHECK_DEADLOCK FALSE
