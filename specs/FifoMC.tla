------------------------------- MODULE FifoMC -------------------------------
(* Exhaustive interleavings: byte-grained copies, both sides free. *)
EXTENDS Fifo
CONSTANTS Caps, MaxLen, MaxBytes
MCInit == \E b \in Caps : Init(b)
Wr == \/ \E n \in 0..MaxLen : acc + n <= MaxBytes /\ WCall("write", n)
      \/ WCall("space", 0)
      \/ WLoad \/ WCopy \/ WPublish \/ WRet
Rd == \/ \E n \in 0..MaxLen, op \in {"read", "peek", "remove"} : RCall(op, n)
      \/ RCall("length", 0)
      \/ RLoad \/ RCopy \/ RPublish \/ RRet
MCNext == Wr \/ Rd
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(WLoad \/ WCopy \/ WPublish \/ WRet)
                 /\ WF_vars(RLoad \/ RCopy \/ RPublish \/ RRet)
\* calls terminate
Terminates == (w.pc # "idle" ~> w.pc = "idle") /\ (r.pc # "idle" ~> r.pc = "idle")
\* published bytes never change place or order: indices only advance
Monotone == [][acc' >= acc /\ del' >= del /\ acc' - acc <= B /\ del' - del <= B]_vars
=============================================================================
