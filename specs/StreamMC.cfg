INIT Init
NEXT Next
CONSTANT M = 12
INVARIANTS Exact NoUnderflow
CHECK_DEADLOCK FALSE
