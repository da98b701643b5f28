----------------------------- MODULE BoundedTrace ------------------------------
EXTENDS Bounded, Tr
VARIABLE l
E == Trace[l]
\* a batch of copies in a memory of E.n bytes holding 1..n: q = <<d, ds, s, n, rc>>,
\* followed by the bytes that changed as <<address, value>>
Codes == <<"OK", "DEST_NULL", "SRC_NULL", "DEST_SIZE_ZERO", "SRC_SIZE_ZERO", "OVERLAP", "OVERSIZED">>
CopyOk == \A i \in DOMAIN E.q :
  LET q == E.q[i] mem == [j \in 1..E.n |-> j] \o << >> new == CopyMemory(mem, q[1], q[2], q[3], q[4]) \o << >> IN
  /\ Codes[q[5] + 1] = CopyResult(q[1], q[2], q[3], q[4])
  /\ {E.ch[i][j] : j \in DOMAIN E.ch[i]} = {<<j, new[j]>> : j \in {k \in 1..E.n : new[k] # k}}
LenOk == \A k \in DOMAIN E.r : E.r[k] = BoundedLen(E.b, k - 1)
MemOk == \A k \in DOMAIN E.r : E.r[k] = Bool(Member(E.a, k - 1, E.x))
PathOk == E.r = Trim(E.p)
\* a history of the log: installs and messages, with what reached whom
RECURSIVE LogRun(_, _, _)
LogRun(i, plain, det) ==
  IF i > Len(E.h) THEN TRUE
  ELSE LET h == E.h[i] IN
    IF h.o = "set"
    THEN LET new == Installed(<<plain, det>>, h.p, h.d) IN
         /\ h.ref = Bool(InstallRefused(h.p, h.d))
         /\ LogRun(i + 1, new[1], new[2])
    ELSE LET sink == IF h.o = "log" THEN plain ELSE det
             heard == Emitted(h.o, h.lv, h.th, h.db = 1) /\ (sink # "default" \/ E.dflt = 1) IN
         /\ IF ~heard THEN h.got = <<>>
            ELSE /\ Len(h.got) = 1
                 /\ LET g == h.got[1] IN
                    /\ g.s = sink /\ g.k = h.o /\ g.m = h.m
                    /\ g.lv = LevelName[h.lv + 1]
                    /\ h.o = "detailed" => g.line = h.line /\ g.f = Trim(h.f)
         /\ LogRun(i + 1, plain, det)
\* <<first, last, agreed>> folded over the ticks
RateOk == LET step(st, i) == LET ok == LetThrough(st[1], st[2], E.t[i], E.th) IN
                <<st[1] /\ ~ok, IF ok THEN E.t[i] ELSE st[2], st[3] /\ E.got[i] = Bool(ok)>>
          IN FoldLeft(step, <<E.first = 1, E.last, TRUE>>, [i \in 1..Len(E.t) |-> i])[3]
LogOk == LogRun(1, "default", "default")
Ok == CASE E.e = "copy" -> CopyOk
        [] E.e = "len" -> LenOk
        [] E.e = "mem" -> MemOk
        [] E.e = "path" -> PathOk
        [] E.e = "hist" -> LogOk
        [] E.e = "rate" -> RateOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
