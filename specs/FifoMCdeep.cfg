SPECIFICATION MCSpec
CONSTANTS V = 13 Caps = {1, 2, 4} MaxLen = 5 MaxBytes = 12
INVARIANTS DeliveredInOrder NeverAhead Bounded ReturnsBounded ContentIntact
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
