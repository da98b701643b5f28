CONSTANTS MaxN = 4 Ordered = FALSE
INIT Init
NEXT Next
INVARIANTS OnePlace AdmissionLaws GeometryLaws Monotone OutcomeLaws
CHECK_DEADLOCK FALSE
