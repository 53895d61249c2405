INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 2
CONSTANT Kinds = {"rot", "int", "mix"}
INVARIANTS Anti FlatIfGaussian Rotates Bounded RankBound FewSites Emit
CHECK_DEADLOCK FALSE
