------------------------------ MODULE FifoTrace ------------------------------
(* Validates recorded call/return events of the real queue.  The shared-      *)
(* memory steps between a call and its return are silent and placed by TLC,   *)
(* so a trace is accepted exactly when some interleaving of the specified     *)
(* steps explains every returned count and every byte handed out.             *)
EXTENDS Fifo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
TInit == l = 1 /\ Init(1) /\ TLCSet(1, 1)
Reset == /\ Is("init") /\ l' = l + 1 /\ w.pc = "idle" /\ r.pc = "idle"
         /\ B' = Ev.B /\ buf' = [i \in 0..(Ev.B - 1) |-> NONE]
         /\ ri' = 0 /\ wi' = 0 /\ acc' = 0 /\ del' = 0 /\ w' = Idle /\ r' = Idle
Call == Is("call") /\ l' = l + 1 /\ IF Ev.p = "w" THEN WCall(Ev.op, Ev.len) ELSE RCall(Ev.op, Ev.len)
Ret == /\ Is("ret") /\ l' = l + 1
       /\ IF Ev.p = "w" THEN /\ WRet /\ w.op = Ev.op /\ Ev.n = w.n
          ELSE /\ RRet /\ r.op = Ev.op /\ Ev.n = r.n /\ Ev.d = r.got
               /\ r.op \in {"read", "peek"} => r.got = [j \in 1..r.n |-> (Base + j - 1) % V]
       /\ Ev.clean = 1     \* nothing written past the bytes returned
End == /\ Is("end") /\ l' = l + 1 /\ Ev.ok = 1   \* guard bytes around the storage intact
       /\ w.pc = "idle" /\ r.pc = "idle" /\ UNCHANGED vars
Silent == l <= Len(Trace) /\ l' = l /\ (WLoad \/ WCopyAll \/ WPublish \/ RLoad \/ RCopyAll \/ RPublish)
TNext == Reset \/ Call \/ Ret \/ End \/ Silent
TSpec == TInit /\ [][TNext]_<<vars, l>>
Progress == TLCSet(1, IF TLCGet(1) > l THEN TLCGet(1) ELSE l)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
