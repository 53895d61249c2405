INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 2
INVARIANTS WalkIsDense CARSum Permuted HermTogether Complement Emit
CHECK_DEADLOCK FALSE
