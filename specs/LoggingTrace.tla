------------------------------ MODULE LoggingTrace -----------------------------
EXTENDS Logging, Tr
VARIABLES l, se          \* se: the built-in sink writes to stderr (else: discards)
E == Trace[l]
Names == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG">>
N(i) == ToString(i)
Two(p, a, b) == p \o N(a) \o " " \o N(b)
\* kind -> <<level, detailed?, line, text>>
Plain(k) == CASE k = 0 -> Two("e", E.a, E.b)
              [] k = 1 -> "a" \o N(E.a)
              [] k = 2 -> "c" \o N(E.a) \o " x y " \o N(E.b)
              [] k = 3 -> "r" \o N(E.b) \o ":" \o N(E.a)
              [] k = 4 -> "w" \o N(E.a)
              [] k = 5 -> Two("n", E.a, E.b)
              [] k = 6 -> "i" \o N(E.a)
              [] k = 7 -> Two("d", E.a, E.b)
Named(k) == CASE k = 0 -> <<3, E.nm \o " r" \o N(E.a)>>
              [] k = 1 -> <<4, E.nm \o " " \o Two("w", E.a, E.b)>>
              [] k = 2 -> <<6, E.nm \o " " \o Two("i", E.a, E.b)>>
              [] k = 3 -> <<7, E.nm \o " d" \o N(E.a)>>
              [] k = 4 -> <<3, E.nm \o " plain">>
              [] k = 5 -> <<7, E.nm \o " plain">>
Msg == LET k == E.k IN
  CASE k \in 0..7   -> [l |-> k, d |-> FALSE, n |-> 0, t |-> Plain(k)]
    [] k \in 10..17 -> [l |-> k - 10, d |-> TRUE, n |-> 90 + k, t |-> Plain(k - 10)]
    [] k \in 20..25 -> [l |-> Named(k - 20)[1], d |-> FALSE, n |-> 0, t |-> Named(k - 20)[2]]
    [] k \in 30..35 -> [l |-> Named(k - 30)[1], d |-> TRUE, n |-> 78 + k, t |-> Named(k - 30)[2]]
    [] k = 40       -> [l |-> 7, d |-> FALSE, n |-> 0, t |-> "<" \o E.fn \o ">~"]
    [] k = 41       -> [l |-> 7, d |-> FALSE, n |-> 0, t |-> "</" \o E.fn \o ">~"]
UsesArg == E.k \notin {24, 25, 34, 35, 40, 41}
On(m) == /\ Enabled(E.lev, E.dbg = 1, m.l)
         /\ (E.k \in {40, 41} => E.dbg = 1)
Line(m) == (IF m.d THEN "(lsn::" \o E.file \o ":" \o N(m.n) \o ") " ELSE "")
           \o Names[m.l + 1] \o ": " \o m.t \o "~"
Call == LET m == Msg on == On(m) IN
  /\ E.obs = IF on /\ sink # "D"
             THEN <<[s |-> sink, l |-> m.l, f |-> IF m.d THEN E.file ELSE "", n |-> m.n, t |-> m.t]>>
             ELSE <<>>
  /\ E.err = IF on /\ sink = "D" /\ se = 1 THEN Line(m) ELSE ""
  \* an argument is evaluated at most once, and is if the message needs it
  /\ E.ev <= 1 /\ (UsesArg /\ on /\ (sink # "D" \/ se = 1) => E.ev = 1)
  \* sink C installs another sink while it delivers
  /\ sink' = IF on /\ sink = "C" THEN (IF m.d THEN "D" ELSE "A") ELSE sink
  /\ UNCHANGED <<last, calls, se>>
TInit == l = 1 /\ LInit(1..4, 1..3) /\ se = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ CASE E.e = "def"   -> /\ E.lev = 6 /\ E.dbg = 0 /\ se' = E.se /\ E.names = Names /\ UNCHANGED lvars
              [] E.e = "set"   -> SetSink(E.to) /\ UNCHANGED se
              [] E.e = "call"  -> Call
              [] E.e = "rate"  -> /\ E.r = Bool(RateRuns(last[E.s], E.t, E.th)) /\ Rate(E.s, E.t, E.th) /\ UNCHANGED se
              [] E.e = "every" -> /\ E.r = Bool(EveryRuns(calls[E.s], E.n)) /\ Every(E.s) /\ UNCHANGED se
===============================================================================
