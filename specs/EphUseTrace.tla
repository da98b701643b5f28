------------------------------ MODULE EphUseTrace ------------------------------
EXTENDS EphUse, Tr
VARIABLE l
Ticks == 16
WeekTicks == 604800 * 16
E == Trace[l]
Names == <<"NULL", "INVALID", "WN_EQ_0", "FIT_INTERVAL_EQ_0", "UNHEALTHY", "INVALID_SID", "INVALID_IOD", "TOO_OLD", "VALID">>
\* one ephemeris, asked at many times
EphOk ==
  /\ E.st = Status(E.p)
  /\ E.nt = 0
  /\ \A i \in DOMAIN E.q :
       LET q == E.q[i] d == Detailed(E.p, q.t) u == Bool(d = "VALID") IN
       /\ q.d = d /\ q.v = u /\ q.s = (IF u = 1 THEN 0 ELSE -1)
\* the window given directly
ParOk == \A i \in DOMAIN E.q : E.q[i].v = Bool(ParamsOk(E.bgn, E.end, E.hastoc = 1, E.q[i].toc, E.q[i].t))
\* the state from an almanac needs what an ephemeris made of it needs
AsEph(a) == [c |-> a.c, valid |-> a.valid, toe |-> a.toa, toc |-> a.toa, fit |-> a.fit, w |-> a.w, ura |-> a.ura, src |-> 0,
             iode |-> 0, iodc |-> 0, iod |-> 0]
AlmOk == \A i \in DOMAIN E.q : /\ E.q[i].v = Bool(AlmUsable(E.p, E.q[i].t))
                               /\ E.q[i].s = (IF Usable(AsEph(E.p), E.q[i].t) THEN 0 ELSE -1)
NullOk == E.st = "NULL" /\ E.d = "NULL" /\ E.v = 0
Ok == CASE E.e = "eph" -> EphOk
        [] E.e = "par" -> ParOk
        [] E.e = "alm" -> AlmOk
        [] E.e = "null" -> NullOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
