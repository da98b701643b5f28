------------------------------ MODULE SetOpsTrace -----------------------------
EXTENDS SetOps, Tr
VARIABLE l
E == Trace[l]
\* output elements carry <<rank, index in their source>> so that the element
\* delivered is identified, not only its rank
Tagged(a) == [i \in 1..Len(a) |-> <<a[i], i - 1>>]
IsectOk == LET P == Pairs(E.a, E.b) IN
  /\ IsSet(E.a) /\ IsSet(E.b)
  /\ E.r = Len(P) /\ E.m = Len(P)
  /\ E.ao = [k \in 1..Len(P) |-> <<E.a[P[k][1]], P[k][1] - 1>>]
  /\ E.bo = [k \in 1..Len(P) |-> <<E.b[P[k][2]], P[k][2] - 1>>]
  /\ E.cb = [k \in 1..Len(P) |-> <<k - 1, P[k][1] - 1, P[k][2] - 1>>]
  /\ E.same = 1 /\ E.ctx = 1
InsOk == /\ E.p = InsPos(E.a, E.k) /\ E.r = E.p /\ E.same = 1
         /\ LET T == Tagged(E.a) IN E.out = SubSeq(T, 1, E.p) \o <<<<E.k, 777>>>> \o SubSeq(T, E.p + 1, Len(T))
RemOk == /\ E.r = RemPos(E.a, E.k) /\ E.same = 1
         /\ LET T == Tagged(E.a) IN E.out = SubSeq(T, 1, E.r) \o SubSeq(T, E.r + 2, Len(T))
\* signals: rank given as <<constellation, code, sat>>
LexLess(x, y) == \/ x[1] < y[1]
                 \/ x[1] = y[1] /\ x[2] < y[2]
                 \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
SidOk == E.r = Bool(\A i \in 1..(Len(E.a) - 1) : LexLess(E.a[i], E.a[i + 1])) /\ E.r2 = E.r
Ok == CASE E.e = "isset" -> E.r = Bool(IsSet(E.a)) /\ E.same = 1
        [] E.e = "isect" -> IsectOk
        [] E.e = "ins" -> InsOk
        [] E.e = "rem" -> RemOk
        [] E.e = "sids" -> SidOk
        [] E.e = "s32" -> E.r = IF E.a < E.b THEN -1 ELSE IF E.a > E.b THEN 1 ELSE 0
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
