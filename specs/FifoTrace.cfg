SPECIFICATION TSpec
CONSTANTS V = 251
INVARIANTS DeliveredInOrder NeverAhead Bounded ContentIntact
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
