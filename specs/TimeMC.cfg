INIT Init
NEXT Next
CONSTANT WK = 12
INVARIANTS Normal Exact AddDiff Anti Order Signs Range NearestWeek KeepUnknown Rounding
CHECK_DEADLOCK FALSE
