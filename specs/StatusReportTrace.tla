--------------------------- MODULE StatusReportTrace --------------------------
EXTENDS StatusReport, Tr
VARIABLES l, up   \* up: the reports under way, innermost last: content, receivers changed meanwhile, receivers reached
E == Trace[l]
\* multiset equality of the recorded deliveries with the expected ones
Expected == {<<n, k>> : n \in Registered(reg), k \in DOMAIN E.sends}
Want(x) == <<reg[x[1]][1], reg[x[1]][2], E.sends[x[2]][1], E.sends[x[2]][2], E.sends[x[2]][3]>>
SendOk == /\ Len(E.calls) = Cardinality(Expected)
          /\ \A x \in Expected : Cardinality({y \in Expected : Want(y) = Want(x)})
                                 = Cardinality({i \in DOMAIN E.calls : E.calls[i] = Want(x)})
\* a receiver registered or removed while a report is under way
Touch(u, n) == [i \in DOMAIN u |-> [u[i] EXCEPT !.touched = @ \cup {n}]]
Msg == <<E.c, E.g, E.s>>
Last == up[Len(up)]
\* receivers are told apart by their contexts: n or n + 6
Node(ctx) == ((ctx - 1) % 6) + 1
DeliverOk == /\ Len(up) > 0 /\ Msg = Last.m /\ E.ctx \in 1..12
             /\ \/ reg[Node(E.ctx)] = <<E.cb, E.ctx>>
                \/ reg[Node(E.ctx)] = <<>> /\ Node(E.ctx) \in Last.touched   \* removed while it is under way
             /\ Node(E.ctx) \in Last.got => Node(E.ctx) \in Last.touched
\* every receiver registered all the while has been reached
EndOk == Len(up) > 0 /\ \A n \in Registered(reg) \ Last.touched : n \in Last.got
TInit == l = 1 /\ RInit /\ up = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ CASE E.e = "reg" -> /\ reg' = RegFn(reg, E.n, E.cb, E.ctx)
                                /\ up' = IF (reg[E.n] = <<>>) # (E.cb = 0) THEN Touch(up, E.n) ELSE up
              [] E.e = "der" -> reg' = DeregFn(reg, E.n) /\ up' = Touch(up, E.n)
              [] E.e = "rst" -> reg' = NoneReg /\ up' = <<>>
              [] E.e = "clr" -> reg' = NoneReg /\ up' = [i \in DOMAIN up |-> [up[i] EXCEPT !.touched = @ \cup Registered(reg)]]
              [] E.e = "sb" -> up' = Append(up, [m |-> Msg, touched |-> {}, got |-> {}]) /\ UNCHANGED reg
              [] E.e = "dl" -> DeliverOk /\ up' = [up EXCEPT ![Len(up)].got = @ \cup {Node(E.ctx)}] /\ UNCHANGED reg
              [] E.e = "se" -> EndOk /\ up' = SubSeq(up, 1, Len(up) - 1) /\ UNCHANGED reg
              [] E.e = "send" -> /\ SendOk /\ up' = up
                                 /\ reg' = [n \in NODES |-> IF \E i \in DOMAIN E.self : E.self[i] = n THEN <<>> ELSE reg[n]]
===============================================================================
