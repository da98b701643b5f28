INIT Init
NEXT Next
INVARIANTS DataBitsOnly Apart Alone FitTotal MulOk
CHECK_DEADLOCK FALSE
