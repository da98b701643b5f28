----------------------------- MODULE StatusReport -----------------------------
(* Receivers register a callback with a context; a report sent is delivered    *)
(* once to every receiver registered at that time.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NODES
VARIABLE reg            \* node -> <<>> or <<callback, context>>
RInit == reg = [n \in NODES |-> <<>>]
RegFn(r, n, cb, ctx) == [r EXCEPT ![n] = IF cb = 0 THEN <<>> ELSE <<cb, ctx>>]   \* cb 0: no callback
DeregFn(r, n) == [r EXCEPT ![n] = <<>>]
NoneReg == [n \in NODES |-> <<>>]
Registered(r) == {n \in NODES : r[n] # <<>>}
===============================================================================
