INIT Init
NEXT Next
CONSTANT Max = 8
INVARIANTS HermIff VSkewIff Relation ParticleHole 
CHECK_DEADLOCK FALSE
