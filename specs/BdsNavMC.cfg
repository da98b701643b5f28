INIT Init
NEXT Next
INVARIANTS Whole Shows Blind DataBitsOnly Apart Alone Covered
CHECK_DEADLOCK FALSE
