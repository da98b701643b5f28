INIT Init
NEXT Next
CONSTANTS
  MaxN = 8
  Errors = {-1, 2}
INVARIANTS NormalEquations Reproduces Geometry Less1 CommonError Noise
CHECK_DEADLOCK FALSE
