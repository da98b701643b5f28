INIT Init
NEXT Next
CONSTANTS
  MaxN = 7
  Errors = {1}
INVARIANTS NormalEquations Reproduces Geometry Less1 CommonError Noise
CHECK_DEADLOCK FALSE
