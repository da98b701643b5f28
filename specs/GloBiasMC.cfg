INIT Init
NEXT Next
INVARIANTS OnlyOpen SameBand Preferred NothingAvailable HighBits OneBit
CHECK_DEADLOCK FALSE
