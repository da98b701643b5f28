INIT Init
NEXT Next
INVARIANTS Member Sigs Sats Bounds
CHECK_DEADLOCK FALSE
