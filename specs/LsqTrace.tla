-------------------------------- MODULE LsqTrace -------------------------------
EXTENDS Lsq, Tr
VARIABLE l
E == Trace[l]
vel == E.nv = 0
Within(x, y, abs, n) == Close(x, y, abs \oplus Over(Mag(y), n))
\* ---- what is released from the measurements S
Near(x, y, t) == x - y <= t /\ y - x <= t
\* the satellites' own velocity (at most 260 m/s, 19000 km away) seen along lines
\* tilted by the position error, through the gain of the estimate
Gain(cov, clk) == cov[1] \oplus cov[4] \oplus cov[6] \oplus clk
Drag(M, gain) == E4(5) \oplus ((E4(3) \oplus Over(Mag(M.r.x[1]) \oplus Mag(M.r.x[2]) \oplus Mag(M.r.x[3]), 15000)) \otimes Sqrt(gain))
\* readings beyond what the trace carries say only that the value is as large
Top == 2147483647
Reads(x, y, abs, n) == IF x = Top \/ x = -Top THEN Less(E8(Top), (Mag(y) \oplus abs) \oplus Over(Mag(y), n)) ELSE Within(E8(x), y, abs, n)
Values(Q, S, M) ==
  LET cov == CovF(M.r) cw == CovF(M.d)
  IN /\ E.ng = Cardinality(S) /\ E.ns = Cardinality(SatsOf(E.ms, S))
     /\ \A i \in 1..3 : Within(E4(E.px[i]), M.r.x[i], E4(200), 500)
     /\ Within(E4(E.co), ClkOf(M.r, 1), E4(200), 500)
     /\ \A h \in 1..6 : (Sane(cov[h]) /\ Sane(cov[h] \otimes Q.r)) => Within(E4(E.cv[h]), cov[h] \otimes Q.r, E4(5) \oplus Over(cov[1] \oplus cov[4] \oplus cov[6], 1000), 500)
     /\ LET v == ClkVar(M.r) \otimes Q.r IN Sane(v) => Within(E4(E.bv), v, E4(5), 500)
     /\ E.vv = Bool(vel)
     /\ vel => /\ LET gain == Gain(cw, ClkVar(M.d)) IN Sane(gain) =>
                   /\ \A i \in 1..3 : Reads(E.vx[i], M.d.x[i], Drag(M, gain), 500)
                   /\ Reads(E.cd, ClkOf(M.d, 1), Drag(M, gain), 500)
               /\ \A h \in 1..6 : LET v == cw[h] \otimes Q.dr IN Less(Mag(v), Num(20)) => Within(E8(E.cw[h]), v, E8(5) \oplus Over(Mag((cw[1] \oplus cw[4] \oplus cw[6]) \otimes Q.dr), 1000), 500)
               /\ LET v == ClkVar(M.d) \otimes Q.dr IN Less(v, Num(20)) => Within(E8(E.dv), v, E8(5), 500)
Released(Q, c, S, k, M) == LET v == Verdict(E.ms, S, k) IN
  \/ v # "bad" /\ E.rc = c /\ Values(Q, S, M)
  \/ v # "good" /\ E.rc = -1
Rm == {E.rm[i] : i \in DOMAIN E.rm}
Enough(S, m) == Cardinality(SatsOf(E.ms, S)) >= m
\* the exclusions of one signal of S that can be tried
Tries(S, m) == {i \in S : Enough(S \ {i}, m)}
Solvable(S, k, m) == \A i \in Tries(S, m) : Full(E.ms, S \ {i}, k)
Ms(Q, S, m, nk) == [i \in Tries(S, m) |-> Metric(Q, S \ {i}, nk, vel)]
Known(f) == \A i \in DOMAIN f : f[i].known
SureP(f, S) == {i \in DOMAIN f : SurePass(f[i], S \ {i}, vel)}
MayP(f, S) == {i \in DOMAIN f : ~SureFail(f[i], S \ {i}, vel)}
Unbeaten(f, i, R) == \A h \in R : ~Beats(f[h], f[i])
Refused == E.rc \in {-4, -5}
Repair(Q, U, k, m) ==
  LET n == Cardinality(U) nk == Len(k) IN
  IF n - 1 <= m THEN Refused
  ELSE IF ~Solvable(U, k, m) THEN TRUE
  ELSE LET f == Ms(Q, U, m, nk) sure == SureP(f, U) IN
    IF ~Known(f) THEN TRUE
    ELSE \/ \E i \in MayP(f, U) : /\ Unbeaten(f, i, sure)
                                  /\ (E.rc = 1 => Rm = {i}) /\ Released(Q, 1, U \ {i}, k, f[i])
         \/ /\ sure = {}
            /\ \E i \in DOMAIN f : /\ Unbeaten(f, i, DOMAIN f)
                 /\ LET S == U \ {i} IN
                    IF n - 2 <= m THEN Refused
                    ELSE IF E.rc = 1 /\ i \notin Rm THEN FALSE
                    ELSE IF ~Solvable(S, k, m) THEN TRUE
                    ELSE LET g == Ms(Q, S, m, nk) IN
                         IF ~Known(g) THEN TRUE
                         ELSE \/ SureP(g, S) = {} /\ Refused
                              \/ \E h \in MayP(g, S) : /\ Unbeaten(g, h, SureP(g, S))
                                   /\ (E.rc = 1 => Rm = {i, h}) /\ Released(Q, 1, S \ {h}, k, g[h])
         \/ DOMAIN f = {} /\ Refused
LsqOk ==
  LET a == Used("all", [on |-> 0, t |-> 0], E.ms) U == a.u k == a.k m == States(a) IN
  IF ~Enough(U, m) THEN E.rc = TooFew
  ELSE IF ~Full(E.ms, U, k) THEN TRUE
  ELSE LET Q == Prep(E.ms, k) M == Metric(Q, U, Len(k), vel) IN
    IF ~M.known THEN TRUE
    ELSE IF E.nr = 1 \/ Cardinality(U) = m THEN Released(Q, 2, U, k, M)
    ELSE IF SurePass(M, U, vel) THEN Released(Q, 0, U, k, M)
    ELSE \/ ~SureFail(M, U, vel) /\ Released(Q, 0, U, k, M)
         \/ Repair(Q, U, k, m)
Ok == LsqOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
