INIT TInit
NEXT TNext
CONSTANTS TS <- Tps
 WK <- TicksPerWeek
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
