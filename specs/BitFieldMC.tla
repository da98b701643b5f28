------------------------------ MODULE BitFieldMC ------------------------------
(* Algebra of the bit operations, and the byte-chunked write as it is done in   *)
(* practice (byte by byte with masks), checked on every small buffer.          *)
EXTENDS BitField, TLC, FiniteSets
CONSTANTS N                   \* buffer bits, bytes of 4 bits for the chunked write
VARIABLES s, pos, len, v, k, w
vars == <<s, pos, len, v, k, w>>
Buf == [1..N -> {0, 1}]
Init == /\ s \in Buf /\ pos \in 0..N /\ len \in 0..N /\ pos + len <= N
        /\ v \in [1..len -> {0, 1}] /\ k = 0 /\ w = s
\* one nibble per step: clear the mask, or in the new bits
Chunk == 4
Step == /\ k < N \div Chunk /\ k' = k + 1
        /\ w' = [i \in 1..N |-> IF (i - 1) \div Chunk = k /\ i > pos /\ i <= pos + len THEN v[i - pos] ELSE w[i]]
        /\ UNCHANGED <<s, pos, len, v>>
Next == Step
Done == k = N \div Chunk
SetGet == LET t == SetF(s, pos, v) IN
  /\ SubSeq(t, pos + 1, pos + len) = v
  /\ \A i \in 1..N : (i <= pos \/ i > pos + len) => t[i] = s[i]
Chunked == Done => w = SetF(s, pos, v)
Ext == len > 0 => /\ Val(Zext(v, N)) = Val(v)
                  /\ SVal(Sext(v, N + 1)) = SVal(v)
                  /\ (SVal(v) - Val(v)) \in {0, -(2 ^ len)}
ShlOk == k = 0 => /\ Val(ShlF(s, pos)) = (Val(s) * 2 ^ pos) % 2 ^ N
                  /\ ShlF(ShlF(s, pos), len) = ShlF(s, pos + len)
CopyOk == k = 0 => CopyF(s, pos, s, pos, len) = s
OnesOk == k = 0 => Ones(s) = Cardinality({i \in 1..N : s[i] = 1})
===============================================================================
