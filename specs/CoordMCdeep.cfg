CONSTANTS LatSteps = 18 LonSteps = 12
SPECIFICATION Spec
INVARIANTS Ellipsoid Axes Mirror Turn Plumb Frame Tangent Sky
CHECK_DEADLOCK FALSE
