INIT Init
NEXT Next
INVARIANTS Reflexive OneIsEnough NoneIsNone IdTiming Foreign Tolerance
CHECK_DEADLOCK FALSE
