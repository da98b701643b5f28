INIT Init
NEXT Next
CONSTANTS WK = 16
 SEC = 1
INVARIANTS Conjunction Windows NearestWeek Interval Almanac
CHECK_DEADLOCK FALSE
