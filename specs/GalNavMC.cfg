INIT Init
NEXT Next
INVARIANTS Inside Apart Alone Covered Monotone
CHECK_DEADLOCK FALSE
