------------------------------- MODULE NavField -------------------------------
(* Navigation message fields.  A message is a sequence of subframes, each a     *)
(* sequence of bits.  A field is a record                                       *)
(*   n  name                                                                     *)
(*   p  its pieces <<subframe, first bit, number of bits>>, most significant     *)
(*      piece first                                                              *)
(*   s  "u" unsigned, "s" two's complement, "m" sign bit and magnitude           *)
(*   u  resolution <<k, b>>: 2^k times 1, pi ("p"), 1000 ("m"), 60 ("M") or 1e-10 ("d")    *)
(* Values are pairs <<hi, lo>> = hi * 65536 + lo, since fields have up to 32     *)
(* bits.                                                                         *)
EXTENDS BitField, FiniteSets
One == "1"
Piece(msg, q) == SubSeq(msg[q[1]], q[2], q[2] + q[3] - 1)
RECURSIVE Cat(_, _, _)
Cat(msg, ps, i) == IF i > Len(ps) THEN << >> ELSE Piece(msg, ps[i]) \o Cat(msg, ps, i + 1)
FBits(msg, f) == Cat(msg, f.p, 1)
Pair(v) == <<v \div 65536, v % 65536>>
Num(b, s) == IF s = "s" THEN SVal(b)
             ELSE IF s = "u" THEN Val(b)
             ELSE (1 - 2 * b[1]) * Val(Tail(b))
NumPair(b, s) == IF Len(b) <= 30 THEN Pair(Num(b, s))
                 ELSE <<Num(SubSeq(b, 1, Len(b) - 16), s), Val(SubSeq(b, Len(b) - 15, Len(b)))>>
Value(msg, f) == NumPair(FBits(msg, f), f.s)
\* fields of at most 30 bits as plain numbers
Plain(msg, f) == Num(FBits(msg, f), f.s)
ByName(F, n) == CHOOSE f \in F : f.n = n
Width(f) == LET RECURSIVE W(_) W(i) == IF i > Len(f.p) THEN 0 ELSE f.p[i][3] + W(i + 1) IN W(1)
\* the positions a field occupies
Places(f) == UNION {{<<f.p[i][1], j>> : j \in f.p[i][2]..(f.p[i][2] + f.p[i][3] - 1)} : i \in DOMAIN f.p}
\* a field of 30-bit words: word w, bits a..b
W30(sf, w, a, b) == <<sf, 30 * (w - 1) + a, b - a + 1>>
\* subframes from words of 30 bits, word number first at index 1
WordsBits(ws, first) ==
  [i \in 1..(30 * (first - 1 + Len(ws))) |->
     IF i <= 30 * (first - 1) THEN 0
     ELSE LET w == ((i - 1) \div 30) + 1 - (first - 1) b == (i - 1) % 30
          IN (ws[w] \div (2 ^ (29 - b))) % 2]
\* writing a value (its bits) into a message
PlaceBits(msg, f, bits) ==
  LET RECURSIVE P(_, _, _)
      P(m, i, at) == IF i > Len(f.p) THEN m
                     ELSE LET q == f.p[i] IN
                          P([m EXCEPT ![q[1]] = SetF(@, q[2] - 1, SubSeq(bits, at, at + q[3] - 1))], i + 1, at + q[3])
  IN P(msg, 1, 1)
\* ---- lemmas a catalogue has to satisfy ------------------------------------------
Disjoint(Fs) == \A f \in Fs : \A g \in Fs : f.n # g.n => Places(f) \cap Places(g) = {}
Patterns(n) == {[i \in 1..n |-> 0], [i \in 1..n |-> 1], [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0],
                [i \in 1..n |-> IF i = 1 THEN 0 ELSE 1], [i \in 1..n |-> i % 2], [i \in 1..n |-> IF i = n THEN 1 ELSE 0]}
\* a value written to its field is read back, and no other field sees it
Independent(f, Fs, blank) ==
  \A b \in Patterns(Width(f)) :
    LET m == PlaceBits(blank, f, b)
    IN Value(m, f) = NumPair(b, f.s) /\ \A g \in Fs : g.n # f.n => Value(m, g) = <<0, 0>>
===============================================================================
