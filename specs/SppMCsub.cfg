CONSTANTS MaxN = 9 Ordered = TRUE
INIT Init
NEXT Next
INVARIANTS OnePlace AdmissionLaws GeometryLaws Monotone OutcomeLaws
CHECK_DEADLOCK FALSE
