INIT Init
NEXT Next
CONSTANT LAST = 75000
INVARIANTS Agrees Doy Known
CHECK_DEADLOCK FALSE
