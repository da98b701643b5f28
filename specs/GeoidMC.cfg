CONSTANTS Stride = 45
SPECIFICATION Spec
INVARIANTS Corners Edges Poles Seam Tame Range Exact
CHECK_DEADLOCK FALSE
