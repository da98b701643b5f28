INIT Init
NEXT Next
CONSTANTS TMAX = 5
 THS = {1, 3}
 PERIODS = {0, 2, 3}
 MAXC = 6
 MAXN = 3
INVARIANTS Spaced FirstRuns EveryCount Gate Monotone
CHECK_DEADLOCK FALSE
