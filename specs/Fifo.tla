-------------------------------- MODULE Fifo --------------------------------
(* Lock-free single-producer / single-consumer byte queue (src/fifo_byte.c). *)
(* Grain: one action per shared-memory step of the code: the call, the load  *)
(* of the other side's index, the copy of one byte, the publication of the   *)
(* own index, and the return.  Indices are free running modulo M (2^32 in    *)
(* the code; any multiple of B that is at least 2B here) and masked by B on  *)
(* access.  Byte number k of the stream has value k % V.                     *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS V            \* number of distinct byte values
VARIABLES B,           \* capacity
          buf,         \* storage [0..B-1 -> value or NONE]
          ri, wi,      \* published indices, modulo 4*B
          acc, del,    \* history: bytes published / bytes removed so far
          w, r         \* the writer's and the reader's call in progress
vars == <<B, buf, ri, wi, acc, del, w, r>>

NONE == V + 1
M == 4 * B
Min(a, b) == IF a < b THEN a ELSE b
Length == (wi + M - ri) % M
Space == B - Length
Idle == [pc |-> "idle", op |-> "none", len |-> 0, n |-> 0, i |-> 0, got |-> <<>>]

Init(b) ==
  /\ B = b /\ buf = [i \in 0..(b - 1) |-> NONE]
  /\ ri = 0 /\ wi = 0 /\ acc = 0 /\ del = 0 /\ w = Idle /\ r = Idle

(***** writer ***************************************************************)
WCall(op, len) ==
  /\ w.pc = "idle" /\ op \in {"write", "length", "space"}
  /\ w' = [Idle EXCEPT !.pc = "load", !.op = op, !.len = len]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, r>>
WLoad ==          \* loads the read index: the linearization of the space test
  /\ w.pc = "load"
  /\ w' = CASE w.op = "write"  -> [w EXCEPT !.pc = IF Min(w.len, Space) = 0 THEN "ret" ELSE "copy",
                                            !.n = Min(w.len, Space)]
            [] w.op = "length" -> [w EXCEPT !.pc = "ret", !.n = Length]
            [] w.op = "space"  -> [w EXCEPT !.pc = "ret", !.n = Space]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, r>>
WCopy ==          \* one byte of the payload
  /\ w.pc = "copy" /\ w.i < w.n
  /\ buf' = [buf EXCEPT ![(wi + w.i) % B] = (acc + w.i) % V]
  /\ w' = [w EXCEPT !.i = @ + 1]
  /\ UNCHANGED <<B, ri, wi, acc, del, r>>
WCopyAll ==       \* the whole payload at once (coarse grain for trace checking)
  /\ w.pc = "copy" /\ w.i = 0 /\ w.n > 0
  /\ buf' = [j \in 0..(B - 1) |->
               LET o == (j + M - (wi % B)) % B IN IF o < w.n THEN (acc + o) % V ELSE buf[j]]
  /\ w' = [w EXCEPT !.i = w.n]
  /\ UNCHANGED <<B, ri, wi, acc, del, r>>
WPublish ==       \* the single store that makes the bytes visible
  /\ w.pc = "copy" /\ w.i = w.n
  /\ wi' = (wi + w.n) % M /\ acc' = acc + w.n
  /\ w' = [w EXCEPT !.pc = "ret"]
  /\ UNCHANGED <<B, buf, ri, del, r>>
WRet ==
  /\ w.pc = "ret" /\ w' = Idle
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, r>>

(***** reader ***************************************************************)
RCall(op, len) ==
  /\ r.pc = "idle" /\ op \in {"read", "peek", "remove", "length", "space"}
  /\ r' = [Idle EXCEPT !.pc = "load", !.op = op, !.len = len]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, w>>
RLoad ==
  /\ r.pc = "load"
  /\ LET n == Min(r.len, Length) IN
     r' = CASE r.op \in {"read", "peek"} -> [r EXCEPT !.pc = IF n = 0 THEN "ret" ELSE "copy", !.n = n]
            [] r.op = "remove" -> [r EXCEPT !.pc = IF n = 0 THEN "ret" ELSE "publish", !.n = n]
            [] r.op = "length" -> [r EXCEPT !.pc = "ret", !.n = Length]
            [] r.op = "space"  -> [r EXCEPT !.pc = "ret", !.n = Space]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, w>>
RCopy ==
  /\ r.pc = "copy" /\ r.i < r.n
  /\ r' = [r EXCEPT !.got = Append(@, buf[(ri + r.i) % B]), !.i = @ + 1,
                    !.pc = IF r.i + 1 < r.n THEN "copy"
                           ELSE IF r.op = "read" THEN "publish" ELSE "ret"]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, w>>
RCopyAll ==
  /\ r.pc = "copy" /\ r.i = 0
  /\ r' = [r EXCEPT !.got = [j \in 1..r.n |-> buf[(ri + j - 1) % B]], !.i = r.n,
                    !.pc = IF r.op = "read" THEN "publish" ELSE "ret"]
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, w>>
RPublish ==       \* re-loads the length (it can only have grown) and advances
  /\ r.pc = "publish"
  /\ ri' = (ri + Min(r.n, Length)) % M /\ del' = del + Min(r.n, Length)
  /\ r' = [r EXCEPT !.pc = "ret", !.n = Min(r.n, Length)]
  /\ UNCHANGED <<B, buf, wi, acc, w>>
RRet ==
  /\ r.pc = "ret" /\ r' = Idle
  /\ UNCHANGED <<B, buf, ri, wi, acc, del, w>>

(***** properties ***********************************************************)
\* what a returning read/peek hands out is the next unread part of the stream
Base == IF r.op = "read" /\ r.pc = "ret" THEN del - r.n ELSE del
DeliveredInOrder ==
  r.pc = "ret" /\ r.op \in {"read", "peek"} =>
     /\ Len(r.got) = r.n
     /\ \A j \in 1..r.n : r.got[j] = (Base + j - 1) % V
NeverAhead == del <= acc
Bounded == /\ Length \in 0..B /\ Space + Length = B
           /\ acc - del = Length
ReturnsBounded == /\ w.pc = "ret" /\ w.op = "write" => w.n <= w.len /\ w.n <= B
                  /\ r.pc = "ret" /\ r.op \in {"read", "peek", "remove"} => r.n <= r.len /\ r.n <= B
\* every published, unread byte is intact in the storage
ContentIntact == \A j \in 0..(Length - 1) : buf[(ri + j) % B] = (del + j) % V
=============================================================================
