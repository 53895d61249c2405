INIT Init
NEXT Next
CONSTANT N = 2
CONSTANT L = 3
INVARIANTS WalkIsDense CARSum Permuted HermTogether Complement
CHECK_DEADLOCK FALSE
