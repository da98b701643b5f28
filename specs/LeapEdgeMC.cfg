INIT Init
NEXT Next
CONSTANTS TS = 4
 WK = 2419200
 F = 4
INVARIANTS Meaning SameClock SameMoscow SameBack Stable
CHECK_DEADLOCK FALSE
