CONSTANTS Stride = 3
SPECIFICATION Spec
INVARIANTS Corners Edges Poles Seam Tame Range Exact
CHECK_DEADLOCK FALSE
