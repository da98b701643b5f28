INIT TInit
NEXT TNext
CONSTANTS TS <- Tps
 WK <- TicksPerWeek
 F <- Fine
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
