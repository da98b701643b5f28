INIT Init
NEXT Next
CONSTANT M = 64
INVARIANTS Least Recovered Complete
CHECK_DEADLOCK FALSE
