CONSTANTS Steps = 1
SPECIFICATION Spec
INVARIANTS Form Ring Field Root Circle Growth Logs Known
CHECK_DEADLOCK FALSE
