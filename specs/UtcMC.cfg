INIT Init
NEXT Next
CONSTANTS TS = 2
 WK = 1209600
INVARIANTS Monotone Steady RoundTrip Only60 LongDays Offs
CHECK_DEADLOCK FALSE
