CONSTANTS Steps = 2
SPECIFICATION Spec
INVARIANTS Form Ring Field Root Circle Growth Logs Known
CHECK_DEADLOCK FALSE
