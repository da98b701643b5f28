-------------------------------- MODULE Logging --------------------------------
(* Logging front end: one installed sink, level gates chosen per source file,   *)
(* and the two limiters (by time stamp, by call count), one instance per site.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sink,      \* "D": the built-in one; otherwise the installed one
          last,      \* limiter site -> <<>> or <<time stamp of its last run>>
          calls      \* call counter per every-n site
lvars == <<sink, last, calls>>
EMERG == 0
DBG == 7
\* a message of level l from a file compiled with threshold lev and debug flag dbg
Enabled(lev, dbg, l) == lev >= l \/ (l = DBG /\ dbg)
\* the sink that a delivery leaves installed: sinks may install another one
Deliver(s) == s
\* time-stamp limiter: first use, enough ticks forward, or time went backwards
RateRuns(prev, t, th) == prev = <<>> \/ t < prev[1] \/ t - prev[1] >= th
\* call-count limiter with period n: calls 0, n, 2n, ... ; never for n <= 0
EveryRuns(k, n) == n > 0 /\ k % n = 0
LInit(sites, esites) == sink = "D" /\ last = [s \in sites |-> <<>>] /\ calls = [s \in esites |-> 0]
SetSink(s) == sink' = s /\ UNCHANGED <<last, calls>>
Rate(s, t, th) == /\ last' = IF RateRuns(last[s], t, th) THEN [last EXCEPT ![s] = <<t>>] ELSE last
                  /\ UNCHANGED <<sink, calls>>
Every(s) == calls' = [calls EXCEPT ![s] = @ + 1] /\ UNCHANGED <<sink, last>>
===============================================================================
