SPECIFICATION Spec
CONSTANT U = 5
INVARIANTS Exact Loop Edit
PROPERTY Ends
CHECK_DEADLOCK FALSE
