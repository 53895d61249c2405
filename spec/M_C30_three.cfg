INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT L = 1
CONSTANT Kinds = {"rot", "int", "mix"}
INVARIANTS Anti FlatIfGaussian Rotates Bounded RankBound FewSites Emit
CHECK_DEADLOCK FALSE
