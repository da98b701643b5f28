CONSTANTS Days = 44000 Every = 61
SPECIFICATION Spec
INVARIANTS InTurn Known Returns Joins Onward Cycle
CHECK_DEADLOCK FALSE
