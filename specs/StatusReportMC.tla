---------------------------- MODULE StatusReportMC ----------------------------
(* The intrusive list: root and next pointers of the receivers' own nodes,      *)
(* with stale pointers in nodes that are not registered.  Delivery walks the    *)
(* list one node per step; the receiver being called may change registrations, *)
(* its own included - but register nobody once it is no longer registered.      *)
EXTENDS StatusReport, TLC
CONSTANTS CBS, NIL
VARIABLES root, next, cbof, at, got,    \* at: node being delivered to; got: deliveries of this report
          incb, touched                 \* in its callback; receivers registered or removed meanwhile
vars == <<reg, root, next, cbof, at, got, incb, touched>>
None == [n \in NODES |-> 0]
Init == /\ RInit /\ root = NIL /\ next \in [NODES -> {NIL}] /\ cbof = None /\ at = NIL /\ got = None
        /\ incb = FALSE /\ touched = {}
RECURSIVE Walk(_, _, _)
Walk(n, nx, fuel) == IF n = NIL THEN <<>> ELSE IF fuel = 0 THEN <<"cycle">> ELSE <<n>> \o Walk(nx[n], nx, fuel - 1)
List == Walk(root, next, Cardinality(NODES) + 1)
Elems == {List[i] : i \in DOMAIN List}
Idle == at = NIL
Unlink(n) == IF n \notin Elems THEN <<root, next>>
             ELSE IF root = n THEN <<next[n], next>>
             ELSE LET p == CHOOSE p \in NODES : p \in Elems /\ next[p] = n IN <<root, [next EXCEPT ![p] = next[n]]>>
Touch(n, cb) == touched' = IF Idle \/ ((n \in Elems) = (cb # 0)) THEN touched ELSE touched \cup {n}
Register(n, cb) ==
  /\ (Idle \/ (incb /\ (at \in Elems \/ cb = 0))) /\ reg' = RegFn(reg, n, cb, 1) /\ UNCHANGED <<at, got, incb>> /\ Touch(n, cb)
  /\ IF cb = 0 THEN root' = Unlink(n)[1] /\ next' = Unlink(n)[2] /\ UNCHANGED cbof
     ELSE /\ cbof' = [cbof EXCEPT ![n] = cb]
          /\ IF n \in Elems THEN UNCHANGED <<root, next>>
             ELSE IF List = <<>> THEN root' = n /\ next' = [next EXCEPT ![n] = NIL]
             ELSE root' = root /\ next' = [next EXCEPT ![n] = NIL, ![List[Len(List)]] = n]
Deregister(n) == /\ (Idle \/ incb) /\ reg' = DeregFn(reg, n) /\ root' = Unlink(n)[1] /\ next' = Unlink(n)[2]
                 /\ UNCHANGED <<cbof, at, got, incb>> /\ Touch(n, 0)
ResetAll == /\ (Idle \/ incb) /\ reg' = NoneReg /\ root' = NIL /\ touched' = IF Idle THEN {} ELSE touched \cup Elems
            /\ UNCHANGED <<next, cbof, at, got, incb>>
Send == Idle /\ root # NIL /\ at' = root /\ UNCHANGED <<reg, root, next, cbof, incb, got, touched>>
Deliver == /\ at # NIL /\ ~incb /\ got[at] < 3
           /\ got' = [got EXCEPT ![at] = @ + 1] /\ incb' = TRUE /\ UNCHANGED <<reg, root, next, cbof, at, touched>>
Return == /\ incb /\ incb' = FALSE /\ at' = next[at] /\ UNCHANGED <<reg, root, next, cbof>>
          /\ IF at' = NIL THEN got' = None /\ touched' = {} ELSE UNCHANGED <<got, touched>>
Next == (\E n \in NODES, cb \in CBS \cup {0} : Register(n, cb)) \/ (\E n \in NODES : Deregister(n))
        \/ ResetAll \/ Send \/ Deliver \/ Return
Acyclic == "cycle" \notin Elems
ListIsReg == Acyclic => Elems = Registered(reg) /\ Len(List) = Cardinality(Elems)
Callback == \A n \in Registered(reg) : cbof[n] = reg[n][1]
\* more than one report only to a receiver registered again meanwhile
OnceEach == \A n \in NODES : got[n] > 1 => n \in touched
\* nobody else: a receiver the report reaches is registered, or was removed meanwhile
OnlyRegistered == at # NIL /\ ~incb => at \in Elems \cup touched
\* a removed receiver is only reached after one that removed itself
RemovedByOthers == at # NIL /\ ~incb /\ at \notin Elems => \E n \in NODES : got[n] > 0 /\ n \in touched
\* when the report has gone round, everyone who stayed has it
Complete == [][at # NIL /\ at' = NIL => \A n \in Elems \ touched : got[n] = 1]_vars
Bound == \A n \in NODES : got[n] < 3
===============================================================================
