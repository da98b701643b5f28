INIT Init
NEXT Next
CONSTANT MAXMS = 70000
INVARIANTS UraInverse UraMonotone UraCovers UraRange SisaMonotone BdsAgrees LockInverse LockFloor LockMonotone LockNibble
CHECK_DEADLOCK FALSE
