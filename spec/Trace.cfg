INIT TInit
NEXT TNext
CONSTANT Step <- MyStep
CONSTANT Init0 <- MyInit
CHECK_DEADLOCK FALSE
