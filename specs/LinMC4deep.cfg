CONSTANTS N = 4 Big = 4 Depth = 3
INIT Init
NEXT Next
INVARIANTS DetLaw RegularLaw SingularLaw AdjLaw TransposeLaw CrossLaw
CHECK_DEADLOCK FALSE
