INIT Init
NEXT Next
CONSTANT Max = 6
INVARIANTS HermIff VSkewIff Relation ParticleHole Emit
CHECK_DEADLOCK FALSE
