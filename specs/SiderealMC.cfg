CONSTANTS Days = 400 Every = 97
SPECIFICATION Spec
INVARIANTS InTurn Known Returns Joins Onward Cycle
CHECK_DEADLOCK FALSE
