INIT TInit
NEXT TNext
CONSTANTS TS <- OneTick
 WK <- WeekSeconds
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
