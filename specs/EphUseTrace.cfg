INIT TInit
NEXT TNext
CONSTANTS WK <- WeekTicks
 SEC <- Ticks
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
