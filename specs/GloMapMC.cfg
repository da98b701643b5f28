INIT Init
NEXT Next
CONSTANTS SLOTS = {1, 2, 3, 4}
 FCNS = {1, 2, 3}
INVARIANTS KnownIffAssigned LastWins Ranges LookupOk
PROPERTY LockedWrites
CHECK_DEADLOCK FALSE
