------------------------------ MODULE GloMapTrace -----------------------------
EXTENDS GloMap, Tr
VARIABLE l
E == Trace[l]
\* recorded map: 28 entries, 0 for slots reported as unknown
AsSeq(m) == [i \in 1..28 |-> m[i]]
\* Between the recorded lock/unlock snapshots of one call the map may change
\* only while the lock is held: the sequence alternates lock, unlock, and each
\* lock snapshot equals the map at the preceding unlock (or call start).
Locks == /\ Len(E.lk) % 2 = 0
         /\ \A i \in 1..Len(E.lk) : E.lk[i].k = IF i % 2 = 1 THEN "L" ELSE "U"
         /\ \A i \in 1..Len(E.lk) : i % 2 = 1 =>
              E.lk[i].m = IF i = 1 THEN AsSeq(map) ELSE E.lk[i - 1].m
         /\ IF Len(E.lk) = 0 THEN map' = map ELSE E.lk[Len(E.lk)].m = AsSeq(map')
Obs == /\ E.m = AsSeq(map')
       /\ \A f \in 1..14 : E.lu[f] = Lookup(map', f)
       /\ E.oth = 0                        \* channels that do not exist have no slots
TInit == l = 1 /\ GInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ held' = FALSE
         /\ CASE E.e = "set" -> map' = SetTo(map, E.f, E.s)
              [] E.e = "clr" -> map' = ClearOf(map, E.s)
              [] E.e = "all" -> map' = [s \in SLOTS |-> Unknown]
              [] E.e = "nolock" -> map' = map
         /\ Obs
         /\ IF E.cb = 1 THEN Locks ELSE E.lk = <<>>
===============================================================================
