CONSTANTS LatSteps = 4 LonSteps = 4
SPECIFICATION Spec
INVARIANTS Ellipsoid Axes Mirror Turn Plumb Frame Tangent Sky
CHECK_DEADLOCK FALSE
