INIT Init
NEXT Next
CONSTANTS TS = 2
 WK = 1209600
INVARIANTS RoundTrip InRangeDay Ticking LeapAtThree
CHECK_DEADLOCK FALSE
