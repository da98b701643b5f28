INIT Init
NEXT Next
CONSTANT LAST = 275000
INVARIANTS Agrees Doy Known
CHECK_DEADLOCK FALSE
