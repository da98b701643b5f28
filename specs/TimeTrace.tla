------------------------------- MODULE TimeTrace ------------------------------
EXTENDS Time, Tr
VARIABLES l, cur
TicksPerWeek == 619315200      \* 1024 ticks to the second
E == Trace[l]
S(x, y) == IF x < y THEN <<x, y>> ELSE <<y, x>>
\* same instant, whatever week ticks are rounded into (values within a rounding
\* error of a tick are recorded as that tick)
Same(t, o) == IF o[1] = UNK THEN t[1] = UNK /\ t[2] % WK = o[2] % WK ELSE Norm(t[1], t[2]) = Norm(o[1], o[2])
CmpOk(a, b) ==
  LET d == Diff(a, b)
      eq == ((a[1] = UNK) <=> (b[1] = UNK)) /\ IsZero(d)
  IN E.cmp = <<Bool(eq), Bool(IsNeg(d)), Bool(~IsNeg(d) /\ ~IsZero(d)),
               Bool(IsNeg(d) \/ eq), Bool((~IsNeg(d) /\ ~IsZero(d)) \/ eq)>>
Ok ==
  CASE E.e = "start" -> cur' = E.t
    [] E.e = "add" -> /\ E.x = 1 /\ E.t = Add(cur, E.k)
                      /\ E.in = 1
                      /\ cur' = E.t
    [] OTHER -> UNCHANGED cur /\
  CASE E.e = "norm" -> /\ E.ok = Bool(NormaliseOk(E.a))
                       /\ NormaliseOk(E.a) => E.t = Normalise(E.a) /\ E.x = 1
    [] E.e = "tiny" -> E.in = 1 /\ Same(E.t, E.a)
    [] E.e = "tdur" -> E.in = 1 /\ E.sg = 1 /\ Norm(E.d[1], E.d[2]) = Norm(E.a[1], E.a[2])
    [] E.e = "valid" -> E.ok = Bool(E.fin = 1 /\ E.a[1] >= 0 /\ E.ge = 1 /\ E.lt = 1)
    [] E.e = "diff" -> /\ E.x = 1
                       /\ E.d = Diff(E.a, E.b)
                       /\ E.m = Diff(E.a, E.b)
                       /\ CmpOk(E.a, E.b)
    [] E.e = "dws" -> LET ok == Valid(E.a) /\ Valid(E.b)
                      IN /\ E.ok = Bool(ok)
                         /\ E.x = 1
                         /\ E.d = IF ok THEN OneSign(Diff(E.a, E.b)) ELSE <<0, 0>>
    [] E.e = "dur" -> E.x = 1 /\ E.d = OneSign(Norm(E.a[1], E.a[2]))
    [] E.e = "match" -> /\ E.ok = Bool(MatchOk(E.a, E.b))
                        /\ MatchOk(E.a, E.b) => E.t = Match(E.a, E.b)
    [] E.e = "range" -> E.ok = Bool(InRange(E.bgn, E.end, E.a))
Init0 == l = 1 /\ cur = <<0, 0>>
TInit == Init0
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
