------------------------------ MODULE GloNavTrace ------------------------------
EXTENDS GloNav, GloTime, Tr
VARIABLE l
E == Trace[l]
OneTick == 1
WeekSeconds == 604800
Units == \A n \in AllOutputs : E.u[n][1] = Unit(n)[1] /\ E.u[n][2] = Unit(n)[2]
StrOk ==
  LET m == <<StringBits(E.w)>> ok == Understood(m, E.k)
  IN /\ E.ok = Bool(ok)
     \* only the outputs of this string change
     /\ \A n \in AllOutputs \ Outputs(E.k) : E.a[n] = E.b[n]
     /\ ok => LET o == Out(m, E.k, E.b) IN \A n \in Outputs(E.k) : E.a[n] = o[n]
     \* indications of ill health are never taken back
     /\ E.a.health = E.b.health \/ E.a.health[2] = Or1(E.b.health[2], 1)
\* five strings make an ephemeris
Fold(ms, k0, st) == LET RECURSIVE G(_, _) G(k, s) == IF k > 5 THEN s ELSE G(k + 1, Out(ms[k], k, s) @@ s) IN G(k0, st)
NoParams == [use |-> 0, a0 |-> 0, lse |-> <<0, 0>>, ls |-> 0, lsf |-> 0]
EphOk ==
  LET ms == [i \in 1..5 |-> <<StringBits(E.w[i])>>]
      ok == \A i \in 1..5 : Understood(ms[i], i)
      toe == <<Plain(ms[5], N4F), Plain(ms[4], NtF), Plain(ms[2], TbF) \div 4, 15 * (Plain(ms[2], TbF) % 4), 0>>
      real == ok /\ ValidDay(toe)
  IN /\ E.src = 0 /\ E.code = E.code0
     /\ E.valid = Bool(real)
     /\ IF ~real THEN E.toe[1] = -1
        ELSE /\ E.toe = GpsOfGlo(toe, NoParams)
             /\ LET o == Fold(ms, 1, E.b)
                IN \A n \in (AllOutputs \ {"tkh", "tkm", "tks", "tknt", "tkn4", "toeh", "toem", "toes", "toent", "toen4",
                                           "age", "taugps"}) : E.a[n] = o[n]
\* the check code: verdicts on a string and on the string with one and two bits inverted
CodeOk ==
  LET s == StringBits(E.w) c == Syndrome(s) t == Total(s)
  IN /\ E.r = Verdict(c, t)
     /\ \A b \in 1..85 : E.r1[b] = Verdict(c ^^ Number[b], 1 - t)
     /\ E.two = 1 => \A b \in 1..85 : LET d == c ^^ Number[b] r == E.r2[b] IN
           \A a \in 1..(b - 1) : r[a] = Verdict(d ^^ Number[a], t)
\* E.v[n]: n bits from bit E.i up
ExtOk == LET s == StringBits(E.w)
         IN \A n \in DOMAIN E.v : E.v[n] = NumPair(SubSeq(s, 86 - (E.i + n - 1), 86 - E.i), "u")
Ok == CASE E.e = "units" -> Units
        [] E.e = "str" -> StrOk
        [] E.e = "eph" -> EphOk
        [] E.e = "code" -> CodeOk
        [] E.e = "ext" -> ExtOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
