------------------------------- MODULE QuantMC --------------------------------
EXTENDS Quant
CONSTANT MAXMS
VARIABLES n, ms
Init == n \in -20..62000 /\ ms = 0
Next == n = 0 /\ ms < MAXMS /\ ms' \in {ms + 1, 2 * ms} /\ ms' <= MAXMS /\ n' = n
\* accuracies: the index names a value that is large enough and the smallest such
UraInverse == n \in 0..15 => IndexOf(UraOf(n), 0) = n /\ (n < 15 => IndexOf(UraOf(n), 1) = n + 1) /\ IndexOf(UraOf(n), -1) = n
UraMonotone == n >= 0 => IndexOf(n, 0) <= IndexOf(n + 1, 0)
UraCovers == LET i == IndexOf(n, 0) IN i # NoIndex => UraOf(i) >= n /\ (i > 0 => UraOf(i - 1) < n)
UraRange == (IndexOf(n, 0) = NoIndex) <=> (n < 0 \/ n > 61440)
SisaMonotone == n \in 0..124 => SisaOf(n) < SisaOf(n + 1)
BdsAgrees == n \in 0..14 => BdsUraOf(n) = UraOf(n)
\* lock times
LockInverse == n \in 0..15 => LockCode(LockMin(n)) = n
LockFloor == LockMin(LockCode(ms)) <= ms /\ (LockCode(ms) < 15 => ms < LockMin(LockCode(ms) + 1))
LockMonotone == LockCode(ms) <= LockCode(ms + 1)
LockNibble == n \in 0..255 => LockMin(n) = LockMin(n % 16)
===============================================================================
