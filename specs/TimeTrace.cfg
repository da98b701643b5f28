INIT TInit
NEXT TNext
CONSTANT WK <- TicksPerWeek
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
