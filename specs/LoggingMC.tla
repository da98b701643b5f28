------------------------------- MODULE LoggingMC -------------------------------
(* Small instance: two sinks besides the built-in one, one time-stamp limiter   *)
(* per threshold, one every-n site per period; history variables for the        *)
(* properties.                                                                 *)
EXTENDS Logging, TLC
CONSTANTS TMAX, THS, PERIODS, MAXC, MAXN
VARIABLES now, runs, eruns, got,
          part      \* which independent part a behaviour exercises
vars == <<sink, last, calls, now, runs, eruns, got, part>>
Sinks == {"D", "A", "B"}
Levels == 0..7
Init == /\ LInit(THS, PERIODS) /\ now = 0 /\ runs = [s \in THS |-> <<>>]
        /\ eruns = [s \in PERIODS |-> 0] /\ got = <<>> /\ part \in {"sinks", "rate", "every"}
Tick == \E t \in 0..TMAX : now' = t /\ t # now /\ UNCHANGED <<sink, last, calls, runs, eruns, got>>
DoSet == \E s \in Sinks : SetSink(s) /\ got' = <<>> /\ UNCHANGED <<now, runs, eruns>>
Call == \E lev \in {-1, 0, 3, 6, 7}, dbg \in BOOLEAN, l \in Levels :
          /\ got' = IF Enabled(lev, dbg, l) THEN <<sink, l, lev, dbg>> ELSE <<>>
          /\ UNCHANGED <<sink, last, calls, now, runs, eruns>>
DoRate == \E s \in THS :
            /\ Len(runs[s]) < MAXN
            /\ Rate(s, now, s)
            /\ runs' = (IF RateRuns(last[s], now, s) THEN [runs EXCEPT ![s] = Append(@, now)] ELSE runs)
            /\ UNCHANGED <<now, eruns, got>>
DoEvery == \E p \in PERIODS :
            /\ calls[p] < MAXC
            /\ Every(p)
            /\ eruns' = (IF EveryRuns(calls[p], p) THEN [eruns EXCEPT ![p] = @ + 1] ELSE eruns)
            /\ UNCHANGED <<now, runs, got>>
Next == /\ UNCHANGED part
        /\ \/ part = "sinks" /\ (DoSet \/ Call)
           \/ part = "rate" /\ (Tick \/ DoRate)
           \/ part = "every" /\ DoEvery
\* consecutive runs of a limited command are a threshold apart unless time went back
Spaced == \A s \in THS : \A i \in 2..Len(runs[s]) :
            runs[s][i] < runs[s][i - 1] \/ runs[s][i] - runs[s][i - 1] >= s
\* the first use always runs
FirstRuns == \A s \in THS : (last[s] = <<>>) = (runs[s] = <<>>)
\* k calls at a period-p site run the command ceil(k/p) times
EveryCount == \A p \in PERIODS : eruns[p] = IF p <= 0 THEN 0 ELSE (calls[p] + p - 1) \div p
\* delivery: to the installed sink only, never below the threshold unless debugging
Gate == got = <<>> \/ (got[1] = sink /\ (got[2] <= got[3] \/ (got[2] = 7 /\ got[4])))
\* thresholds are monotone: whatever a quieter file logs, a chattier one logs too
Monotone == \A a \in -1..7, b \in -1..7, l \in Levels : (a <= b /\ Enabled(a, FALSE, l)) => Enabled(b, FALSE, l)
===============================================================================
