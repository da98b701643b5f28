---------------------------------- MODULE Tr ----------------------------------
(* Trace plumbing shared by every trace specification: a recorded trace is a   *)
(* sequence of JSON records, one per call of the real code.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the record index reached; every step consumes exactly one record
Accepted == LET n == TLCGet("stats").diameter - 1
            IN IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", n + 1>>) /\ FALSE
Bool(x) == IF x THEN 1 ELSE 0
===============================================================================
