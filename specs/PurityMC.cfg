SPECIFICATION Spec
INVARIANTS Sound Note
CONSTRAINT Stop
POSTCONDITION Caught
CHECK_DEADLOCK FALSE
