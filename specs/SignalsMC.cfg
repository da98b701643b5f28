INIT Init
NEXT Next
INVARIANTS Total Irrefl Dense
CHECK_DEADLOCK FALSE
