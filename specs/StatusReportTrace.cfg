INIT TInit
NEXT TNext
CONSTANT NODES = {1,2,3,4,5,6}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
