CONSTANTS MaxN = 14 Ordered = TRUE
INIT Init
NEXT Next
INVARIANTS OnePlace AdmissionLaws GeometryLaws Monotone OutcomeLaws
CHECK_DEADLOCK FALSE
