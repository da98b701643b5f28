CONSTANTS Ticks = 8 Hop = 90
SPECIFICATION Spec
INVARIANTS Equation Radius Energy Area Newton Period Height Near Station Relativity Week Conserved Reverse MirrorG AtEpoch Derivs NoShift
CHECK_DEADLOCK FALSE
