------------------------------- MODULE GloMapMC -------------------------------
(* Lock, change, unlock as separate steps; `last` is the history variable the   *)
(* property talks about: the last valid assignment of each slot, if it has not  *)
(* been released since.                                                        *)
EXTENDS GloMap, TLC
VARIABLES pc, last
vars == <<map, held, pc, last>>
Init == GInit /\ pc = <<"idle">> /\ last = [s \in SLOTS |-> <<>>]
ReqSlots == SLOTS \cup {0, 99}
ReqFcns == FCNS \cup {0, 99}
SetReq(f, s) == pc = <<"idle">> /\ UNCHANGED <<map, held, last>>
                /\ pc' = IF ValidReq(f, s) THEN <<"lock", f, s>> ELSE pc
ClearReq(s) == pc = <<"idle">> /\ pc' = <<"lock", Unknown, s>> /\ UNCHANGED <<map, held, last>>
Lock == pc[1] = "lock" /\ ~held /\ held' = TRUE /\ pc' = <<"write", pc[2], pc[3]>> /\ UNCHANGED <<map, last>>
Write == pc[1] = "write" /\ map' = [map EXCEPT ![pc[3]] = pc[2]] /\ pc' = <<"unlock", pc[2], pc[3]>>
         /\ last' = [last EXCEPT ![pc[3]] = IF pc[2] = Unknown THEN <<>> ELSE <<pc[2]>>] /\ UNCHANGED held
Unlock == pc[1] = "unlock" /\ held' = FALSE /\ pc' = <<"idle">> /\ UNCHANGED <<map, last>>
Next == (\E f \in ReqFcns, s \in ReqSlots : SetReq(f, s)) \/ (\E s \in SLOTS : ClearReq(s)) \/ Lock \/ Write \/ Unlock
KnownIffAssigned == \A s \in SLOTS : (map[s] # Unknown) = (last[s] # <<>>)
LastWins == \A s \in SLOTS : last[s] # <<>> => map[s] = last[s][1]
Ranges == \A s \in SLOTS : map[s] \in FCNS \cup {Unknown}
LockedWrites == [][map' # map => held /\ held']_vars
LookupOk == \A f \in FCNS : LET r == Lookup(map, f) IN
  /\ r[1] = (IF Cardinality(SlotsOf(map, f)) > 2 THEN 2 ELSE Cardinality(SlotsOf(map, f)))
  /\ (r[1] >= 1 => map[r[2]] = f /\ \A s \in SLOTS : map[s] = f => s >= r[2])
  /\ (r[1] = 2 => map[r[3]] = f /\ r[2] < r[3] /\ \A s \in SLOTS : map[s] = f /\ s # r[2] => s >= r[3])
  /\ (r[1] = 0 => r = <<0, 0, 0>>) /\ (r[1] = 1 => r[3] = 0)
===============================================================================
