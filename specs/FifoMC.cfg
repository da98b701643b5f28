SPECIFICATION MCSpec
CONSTANTS V = 9 Caps = {1, 2, 4} MaxLen = 3 MaxBytes = 7
INVARIANTS DeliveredInOrder NeverAhead Bounded ReturnsBounded ContentIntact
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
