INIT Init
NEXT Next
CONSTANTS NODES = {n1, n2, n3}
 CBS = {1}
 NIL = NIL
INVARIANTS Acyclic ListIsReg Callback OnceEach OnlyRegistered RemovedByOthers
PROPERTY Complete
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
