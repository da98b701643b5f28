---------------------------------- MODULE Crc ----------------------------------
(* CRC-24Q as the bit-serial shift register of its polynomial.                 *)
EXTENDS BitField, Bitwise, SequencesExt
Poly == 8801531                \* 0x864CFB, the polynomial without x^24
Top == 8388608                 \* 2^23
Step(crc, bit) == LET s == (2 * crc) % 16777216
                  IN IF (crc \div Top + bit) % 2 = 1 THEN s ^^ Poly ELSE s
FeedBits(crc, bits) == FoldLeft(Step, crc, bits)
\* byte strings of any length, without building the whole bit sequence
FeedByte(crc, x) == FeedBits(crc, Bits(<<x>>))
CrcBytes(b, crc) == FoldLeft(FeedByte, crc, b)
Zeros(n) == [i \in 1..n |-> 0]
Flip(s) == [i \in 1..Len(s) |-> 1 - s[i]]
CrcBits(b, n, crc, inv) ==
  LET d == Field(b, 0, n) m == IF inv THEN Flip(d) ELSE d
  IN FeedBits(crc, Zeros(8 - (n % 8)) \o m)
===============================================================================
