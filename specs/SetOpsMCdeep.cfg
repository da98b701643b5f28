SPECIFICATION Spec
CONSTANT U = 7
INVARIANTS Exact Loop Edit
PROPERTY Ends
CHECK_DEADLOCK FALSE
