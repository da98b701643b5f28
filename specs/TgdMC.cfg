INIT Init
NEXT Next
INVARIANTS OnGrid Reference SameFrequency Grows Served
CHECK_DEADLOCK FALSE
