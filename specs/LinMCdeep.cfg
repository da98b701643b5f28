CONSTANTS N = 3 Big = 4 Depth = 5
INIT Init
NEXT Next
INVARIANTS DetLaw RegularLaw SingularLaw AdjLaw TransposeLaw CrossLaw
CHECK_DEADLOCK FALSE
