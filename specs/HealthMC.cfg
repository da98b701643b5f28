INIT Init
NEXT Next
INVARIANTS Clean SameForConditions Monotone Bands Stricter Ones
CHECK_DEADLOCK FALSE
