INIT Init
NEXT Next
CONSTANT N = 8
INVARIANTS SetGet Chunked Ext ShlOk CopyOk OnesOk
CHECK_DEADLOCK FALSE
