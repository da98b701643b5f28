INIT Init
NEXT Next
INVARIANTS Apart Alone Codes Sums
CHECK_DEADLOCK FALSE
