-------------------------------- MODULE BdsNav --------------------------------
(* The BeiDou D1 message (BDS-SIS-ICD-2.1, figures 5-5 to 5-8, tables 5-7 to     *)
(* 5-10): subframes 1 to 3, by the bit numbers of the document.                  *)
EXTENDS NavField, Crc
F(n, p, s, k, b) == [n |-> n, p |-> p, s |-> s, u |-> <<k, b>>]
R(sf, a, b) == <<sf, a, b - a + 1>>
EphFields == {
  F("health", <<R(1, 43, 43)>>, "u", 0, "1"),
  F("toc", <<R(1, 74, 82), R(1, 91, 98)>>, "u", 3, "1"),
  F("tgd1", <<R(1, 99, 108)>>, "s", 0, "d"),
  F("tgd2", <<R(1, 109, 112), R(1, 121, 126)>>, "s", 0, "d"),
  F("af2", <<R(1, 215, 225)>>, "s", -66, "1"),
  F("af0", <<R(1, 226, 232), R(1, 241, 257)>>, "s", -33, "1"),
  F("af1", <<R(1, 258, 262), R(1, 271, 287)>>, "s", -50, "1"),
  F("dn", <<R(2, 43, 52), R(2, 61, 66)>>, "s", -43, "p"),
  F("cuc", <<R(2, 67, 82), R(2, 91, 92)>>, "s", -31, "1"),
  F("m0", <<R(2, 93, 112), R(2, 121, 132)>>, "s", -31, "p"),
  F("ecc", <<R(2, 133, 142), R(2, 151, 172)>>, "u", -33, "1"),
  F("cus", <<R(2, 181, 198)>>, "s", -31, "1"),
  F("crc", <<R(2, 199, 202), R(2, 211, 224)>>, "s", -6, "1"),
  F("crs", <<R(2, 225, 232), R(2, 241, 250)>>, "s", -6, "1"),
  F("sqrta", <<R(2, 251, 262), R(2, 271, 290)>>, "u", -19, "1"),
  F("toe", <<R(2, 291, 292), R(3, 43, 52), R(3, 61, 65)>>, "u", 3, "1"),
  F("inc", <<R(3, 66, 82), R(3, 91, 105)>>, "s", -31, "p"),
  F("cic", <<R(3, 106, 112), R(3, 121, 131)>>, "s", -31, "1"),
  F("omegadot", <<R(3, 132, 142), R(3, 151, 163)>>, "s", -43, "p"),
  F("cis", <<R(3, 164, 172), R(3, 181, 189)>>, "s", -31, "1"),
  F("inc_dot", <<R(3, 190, 202), R(3, 211, 211)>>, "s", -43, "p"),
  F("omega0", <<R(3, 212, 232), R(3, 241, 251)>>, "s", -31, "p"),
  F("w", <<R(3, 252, 262), R(3, 271, 291)>>, "s", -31, "p") }
UraF == F("ura", <<R(1, 49, 52)>>, "u", 0, "1")
WnF == F("wn", <<R(1, 61, 73)>>, "u", 0, "1")
EF(n) == ByName(EphFields, n)
IonoFields == {
  F("a0", <<R(1, 127, 134)>>, "s", -30, "1"), F("a1", <<R(1, 135, 142)>>, "s", -27, "1"),
  F("a2", <<R(1, 151, 158)>>, "s", -24, "1"), F("a3", <<R(1, 159, 166)>>, "s", -24, "1"),
  F("b0", <<R(1, 167, 172), R(1, 181, 182)>>, "s", 11, "1"), F("b1", <<R(1, 183, 190)>>, "s", 14, "1"),
  F("b2", <<R(1, 191, 198)>>, "s", 16, "1"), F("b3", <<R(1, 199, 202), R(1, 211, 214)>>, "s", 16, "1") }
\* accuracy in 0.1 mm; index 15: none
UraTable == <<20000, 28000, 40000, 57000, 80000, 113000, 160000, 320000, 640000, 1280000,
              2560000, 5120000, 10240000, 20480000, 40960000, -10000>>
\* week numbers count from week 1356 of GPS time
Week(m) == 1356 + Plain(m, WnF)
\* issue of data: twelve-minute steps of the reference times, modulo 240
Issue(m, n) == (Plain(m, EF(n)) \div 90) % 240
\* identity of an ephemeris (CNES): the check value of its fields, in this order, filled up to bytes
Order == <<"inc_dot", "af2", "af1", "af0", "crs", "dn", "m0", "cuc", "ecc", "cus", "sqrta", "cic", "omega0", "cis", "inc", "crc", "w", "omegadot">>
RECURSIVE Gather(_, _)
Gather(m, i) == IF i > Len(Order) THEN <<0, 0, 0, 0, 0>> ELSE FBits(m, EF(Order[i])) \o Gather(m, i + 1)
Identity(m) == FeedBits(0, Gather(m, 1))
===============================================================================
