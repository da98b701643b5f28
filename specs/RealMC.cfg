CONSTANTS N = 3 Depth = 3
SPECIFICATION Spec
INVARIANTS InverseLaw RotationLaw TransposeLaw PseudoLaw GramLaw
CHECK_DEADLOCK FALSE
