------------------------------- MODULE GloBiasMC ------------------------------
EXTENDS GloBias
VARIABLES c, mask
B == [l1of |-> 1, l1p |-> 10, l2of |-> 100, l2p |-> 1000]
Init == c \in (Codes \cup {-1, 64}) /\ mask \in 0..255
Next == UNCHANGED <<c, mask>>
OnlyOpen == Correction(c, mask, B) # 0 => c \in {3, 4}
SameBand == Correction(c, mask, B) \in (CASE c = 3 -> {0, -1, -10} [] c = 4 -> {0, -100, -1000} [] OTHER -> {0})
Preferred == (c = 3 /\ Has(mask, "l1of")) => Correction(c, mask, B) = -1
NothingAvailable == mask % 16 = 0 => Correction(c, mask, B) = 0
HighBits == Correction(c, mask, B) = Correction(c, mask % 16, B)
OneBit == \A s \in DOMAIN MaskBit : Has(mask, s) <=> FlagSet(mask, 2 ^ MaskBit[s])
===============================================================================
