------------------------------ MODULE HealthTrace ------------------------------
EXTENDS Health, Tr
VARIABLE l
E == Trace[l]
\* per code: answers for every word
WordsOk == \A w \in 0..255 :
  /\ E.six[w + 1] = Bool(WordOk(w, E.c))
  /\ E.eight[w + 1] = Bool(PageWordOk(w, E.c))
  /\ E.page[w + 1] = Bool(Page25Ok(w, E.c))
\* codes outside the catalogue: only trouble of the whole satellite counts
OddOk == \A w \in 0..255 :
  /\ E.six[w + 1] = Bool(w % 32 \notin WholeSatellite)
  /\ E.eight[w + 1] = Bool(w = 0 \/ (w < 32 /\ w \notin WholeSatellite))
  /\ E.page[w + 1] = Bool(w % 32 \notin WholeSatellite)
\* per mask of ignored causes: answers for every word
DhiOk == \A w \in 0..255 : E.r[w + 1] = Bool(NavDataOk(w, E.m))
AlmOk == \A w \in 0..255 : E.r[w + 1] = Bool(AlmanacHealthy(w, E.c))
EphOk == \A w \in 0..255 : E.r[w + 1] = Bool(EphHealthy(E.valid, w, E.ura, E.c))
\* word 3 of subframe 1 as <<data bits 1..24, parity bits>>
Sf1Ok == E.h = Subframe1Health(E.d)
Ok == CASE E.e = "words" -> IF ValidCode(E.c) THEN WordsOk ELSE OddOk
        [] E.e = "dhi" -> DhiOk
        [] E.e = "alm" -> AlmOk
        [] E.e = "eph" -> EphOk
        [] E.e = "sf1" -> Sf1Ok
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
