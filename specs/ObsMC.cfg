CONSTANT Ticks = 50
SPECIFICATION Spec
INVARIANTS TypeOk Geometry Shows Nothing
CHECK_DEADLOCK FALSE
