------------------------------- MODULE BitField -------------------------------
(* Buffers as bit sequences, most significant bit of each byte first.          *)
EXTENDS Integers, Sequences
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* bit i (0-based) of a byte sequence, of a sequence of 16-bit words
BitOf(b, i) == (b[(i \div 8) + 1] \div P2[8 - (i % 8)]) % 2
BitOfW(w, i) == (w[(i \div 16) + 1] \div P2[16 - (i % 16)]) % 2
Bits(b) == [i \in 1..(8 * Len(b)) |-> BitOf(b, i - 1)]
BitsW(w) == [i \in 1..(16 * Len(w)) |-> BitOfW(w, i - 1)]
Field(b, pos, len) == [i \in 1..len |-> BitOf(b, pos + i - 1)]
\* bit sequences widened to n bits
Zext(f, n) == [i \in 1..n |-> IF i <= n - Len(f) THEN 0 ELSE f[i - (n - Len(f))]]
Sext(f, n) == [i \in 1..n |-> IF i <= n - Len(f) THEN f[1] ELSE f[i - (n - Len(f))]]
Low(f, n) == SubSeq(f, Len(f) - n + 1, Len(f))
\* bit sequence operations
SetF(s, pos, f) == [i \in 1..Len(s) |-> IF i > pos /\ i <= pos + Len(f) THEN f[i - pos] ELSE s[i]]
CopyF(d, dpos, s, spos, n) == SetF(d, dpos, SubSeq(s, spos + 1, spos + n))
ShlF(s, n) == [i \in 1..Len(s) |-> IF i + n <= Len(s) THEN s[i + n] ELSE 0]
RECURSIVE OnesFrom(_, _)
OnesFrom(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + OnesFrom(f, i + 1)
Ones(f) == OnesFrom(f, 1)
RECURSIVE ValFrom(_, _, _)
ValFrom(f, i, acc) == IF i > Len(f) THEN acc ELSE ValFrom(f, i + 1, 2 * acc + f[i])
Val(f) == ValFrom(f, 1, 0)                       \* unsigned value, up to 30 bits
SVal(f) == Val(f) - (IF f[1] = 1 THEN 2 ^ Len(f) ELSE 0)
===============================================================================
