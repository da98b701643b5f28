INIT Init
NEXT Next
INVARIANTS ByTable SelfZero Linear LeadingZeros Burst InRange
CHECK_DEADLOCK FALSE
