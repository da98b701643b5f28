-------------------------------- MODULE GloNav --------------------------------
(* GLONASS navigation strings (ICD L1, L2 edition 5.1): bits are numbered from  *)
(* 85 (first) down to 1, so a string is a one-part message whose bit b is at     *)
(* position 86 - b.                                                              *)
EXTENDS NavField, Bitwise, SequencesExt
Places85 == [j \in 1..85 |-> j] \o << >>
F(n, hi, lo, s, k, b) == [n |-> n, p |-> <<<<1, 86 - hi, hi - lo + 1>>>>, s |-> s, u |-> <<k, b>>]
\* a string as six 16-bit halves, least significant first
StringBits(h) == ([i \in 1..85 |-> LET b == 85 - i IN (h[(b \div 16) + 1] \div P2[(b % 16) + 1]) % 2]) \o << >>
NumberF == F("m", 84, 81, "u", 0, "1")
Axis(k) == <<"x", "y", "z">>[k]
\* strings 1 to 3 carry one coordinate each
PosF(k) == F("pos" \o Axis(k), 35, 9, "m", -11, "m")
VelF(k) == F("vel" \o Axis(k), 64, 41, "m", -20, "m")
AccF(k) == F("acc" \o Axis(k), 40, 36, "m", -30, "m")
TkH == F("tkh", 76, 72, "u", 0, "1")
TkM == F("tkm", 71, 66, "u", 0, "1")
TkS == F("tks", 65, 65, "u", 0, "1")                 \* half minutes
P1F == F("p1", 78, 77, "u", 0, "1")
BF == F("b", 80, 80, "u", 0, "1")                    \* most significant bit of B_n
TbF == F("tb", 76, 70, "u", 0, "1")                  \* quarters of an hour
GammaF == F("gamma", 79, 69, "m", -40, "1")
LnF == F("ln", 65, 65, "u", 0, "1")
TauF == F("tau", 80, 59, "m", -30, "1")
DTauF == F("dtau", 58, 54, "m", -30, "1")
EnF == F("en", 53, 49, "u", 0, "1")
FtF == F("ft", 33, 30, "u", 0, "1")
NtF == F("nt", 26, 16, "u", 0, "1")
SlotF == F("n", 15, 11, "u", 0, "1")
N4F == F("n4", 36, 32, "u", 0, "1")
TauGpsF == F("taugps", 31, 10, "m", -30, "1")
FieldsOf(k) == CASE k = 1 -> {NumberF, PosF(1), VelF(1), AccF(1), TkH, TkM, TkS, P1F}
                 [] k = 2 -> {NumberF, PosF(2), VelF(2), AccF(2), BF, TbF}
                 [] k = 3 -> {NumberF, PosF(3), VelF(3), AccF(3), GammaF, LnF}
                 [] k = 4 -> {NumberF, TauF, DTauF, EnF, FtF, NtF, SlotF}
                 [] k = 5 -> {NumberF, N4F, TauGpsF}
\* ---- the check code (ICD 4.7) --------------------------------------------------
\* data bit b (9..85) has the (b - 8)-th number that is not a power of two; check
\* bit i (1..7) makes the number of ones among the data bits whose number has
\* binary digit i even; check bit 8 makes the number of all ones even
Powers == {1, 2, 4, 8, 16, 32, 64}
\* the numbers of the bits 1..85: data bits as above, check bit i has 2^(i-1), check bit 8 none
Numbers == SetToSortSeq(1..84 \ Powers, LAMBDA x, y : x < y)
Number == <<1, 2, 4, 8, 16, 32, 64, 0>> \o SubSeq(Numbers, 1, 77)
\* the seven check sums as one number: the exclusive or of the numbers of the bits set
Syndrome(s) == FoldLeft(LAMBDA c, j : IF s[j] = 1 THEN c ^^ Number[86 - j] ELSE c, 0, Places85)
Total(s) == Ones(s) % 2
\* check sum i spelled out: check bit i and the data bits whose number has digit i
Digit(n, i) == (n \div P2[i]) % 2
At(s, b) == s[86 - b]
SumOf(s, i) == (At(s, i) + Ones([j \in 1..77 |-> At(s, j + 8) * Digit(Number[j + 8], i)])) % 2
Digits(c) == Cardinality({i \in 1..7 : Digit(c, i) = 1})
\* verdict on a syndrome and a total: 0 good, -1 bad, otherwise the bit to invert
VerdictOf(c, t) ==
  LET n == Digits(c) IN
  IF (n = 0 /\ t = 0) \/ (n = 1 /\ t = 1) THEN 0
  ELSE IF n > 1 /\ t = 1 /\ \E b \in 9..85 : Number[b] = c THEN CHOOSE b \in 9..85 : Number[b] = c
  ELSE -1
VerdictTable == <<[c \in 1..128 |-> VerdictOf(c - 1, 0)] \o << >>, [c \in 1..128 |-> VerdictOf(c - 1, 1)] \o << >>>>
Verdict(c, t) == VerdictTable[t + 1][c + 1]
GoodString(s) == Verdict(Syndrome(s), Total(s)) = 0
\* ---- acceptance and meaning -------------------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
\* limits of table 4.5 in units of the fields
PosLimit == 55296000                                  \* 27000 km
VelLimit == 4508876                                   \* 4.3 km/s
AccLimit == 6                                         \* 6.2e-9 km/s^2
TauGpsLimit == 2040109                                \* 1.9e-3 s
VecOk(m, k) == Abs(Plain(m, PosF(k))) <= PosLimit /\ Abs(Plain(m, VelF(k))) <= VelLimit
               /\ Abs(Plain(m, AccF(k))) <= AccLimit
InLimits(m, k) ==
  CASE k = 1 -> VecOk(m, 1) /\ Plain(m, TkH) <= 23 /\ Plain(m, TkM) <= 59
    [] k = 2 -> VecOk(m, 2) /\ Plain(m, TbF) \in 1..95
    [] k = 3 -> VecOk(m, 3)
    [] k = 4 -> Plain(m, SlotF) \in 1..28 /\ Plain(m, NtF) <= 1461
    [] k = 5 -> Plain(m, N4F) >= 1 /\ Abs(Plain(m, TauGpsF)) <= TauGpsLimit
Understood(m, k) == GoodString(m[1]) /\ Plain(m, NumberF) = k /\ InLimits(m, k)
\* accuracy (table 4.4) in half metres, 15: none
FtTable == <<2, 4, 5, 8, 10, 14, 20, 24, 28, 32, 64, 128, 256, 512, 1024, -2>>
\* interval between reference times (table 4.3) plus ten minutes; an unset interval
\* keeps what was known, an hour if nothing was
FitOf(p1, old) == IF p1 # 0 THEN 60 * <<30, 45, 60>>[p1] + 600 ELSE IF old = 0 THEN 4200 ELSE old
Or1(h, b) == IF b = 1 /\ h % 2 = 0 THEN h + 1 ELSE h
\* the outputs of string k: what they become, given the state o before
Out(m, k, o) ==
  CASE k = 1 -> [posx |-> Value(m, PosF(1)), velx |-> Value(m, VelF(1)), accx |-> Value(m, AccF(1)),
                 tkh |-> Value(m, TkH), tkm |-> Value(m, TkM), tks |-> Pair(30 * Plain(m, TkS)),
                 fit |-> Pair(FitOf(Plain(m, P1F), o.fit[1] * 65536 + o.fit[2]))]
    [] k = 2 -> LET tb == Plain(m, TbF) IN
                [posy |-> Value(m, PosF(2)), vely |-> Value(m, VelF(2)), accy |-> Value(m, AccF(2)),
                 health |-> Pair(Or1(o.health[2], Plain(m, BF))),
                 toeh |-> Pair(tb \div 4), toem |-> Pair(15 * (tb % 4)), toes |-> <<0, 0>>,
                 iod |-> Pair((900 * tb) % 128)]
    [] k = 3 -> [posz |-> Value(m, PosF(3)), velz |-> Value(m, VelF(3)), accz |-> Value(m, AccF(3)),
                 gamma |-> Value(m, GammaF), health |-> Pair(Or1(o.health[2], Plain(m, LnF)))]
    [] k = 4 -> [tau |-> Value(m, TauF), dtau |-> Value(m, DTauF), age |-> Value(m, EnF),
                 sat |-> Value(m, SlotF), ura |-> Pair(FtTable[Plain(m, FtF) + 1]),
                 tknt |-> Value(m, NtF), toent |-> Value(m, NtF)]
    [] k = 5 -> [tkn4 |-> Value(m, N4F), toen4 |-> Value(m, N4F), taugps |-> Value(m, TauGpsF)]
Outputs(k) == CASE k = 1 -> {"posx", "velx", "accx", "tkh", "tkm", "tks", "fit"}
                [] k = 2 -> {"posy", "vely", "accy", "health", "toeh", "toem", "toes", "iod"}
                [] k = 3 -> {"posz", "velz", "accz", "gamma", "health"}
                [] k = 4 -> {"tau", "dtau", "age", "sat", "ura", "tknt", "toent"}
                [] k = 5 -> {"tkn4", "toen4", "taugps"}
AllOutputs == UNION {Outputs(k) : k \in 1..5}
\* resolutions of the outputs
UnitOf == [posx |-> PosF(1).u, posy |-> PosF(1).u, posz |-> PosF(1).u, velx |-> VelF(1).u, vely |-> VelF(1).u,
           velz |-> VelF(1).u, accx |-> AccF(1).u, accy |-> AccF(1).u, accz |-> AccF(1).u,
           gamma |-> GammaF.u, tau |-> TauF.u, dtau |-> DTauF.u, taugps |-> TauGpsF.u, ura |-> <<-1, "1">>]
Unit(n) == IF n \in DOMAIN UnitOf THEN UnitOf[n] ELSE <<0, "1">>
===============================================================================
