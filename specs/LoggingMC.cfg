INIT Init
NEXT Next
CONSTANTS TMAX = 4
 THS = {1, 3}
 PERIODS = {0, 1, 3}
 MAXC = 4
 MAXN = 2
INVARIANTS Spaced FirstRuns EveryCount Gate Monotone
CHECK_DEADLOCK FALSE
