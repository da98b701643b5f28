-------------------------------- MODULE GalNav --------------------------------
(* Galileo I/NAV words 1 to 5 (OS SIS ICD, tables 39 to 43), by bit offset in the *)
(* 128-bit word.                                                                  *)
EXTENDS NavField
F(n, p, s, k, b) == [n |-> n, p |-> p, s |-> s, u |-> <<k, b>>]
O(w, off, len) == <<<<w, off + 1, len>>>>
EphFields == {
  F("iod", O(1, 6, 10), "u", 0, "1"),
  F("toe", O(1, 16, 14), "u", 0, "M"),
  F("m0", O(1, 30, 32), "s", -31, "p"),
  F("ecc", O(1, 62, 32), "u", -33, "1"),
  F("sqrta", O(1, 94, 32), "u", -19, "1"),
  F("omega0", O(2, 16, 32), "s", -31, "p"),
  F("inc", O(2, 48, 32), "s", -31, "p"),
  F("w", O(2, 80, 32), "s", -31, "p"),
  F("inc_dot", O(2, 112, 14), "s", -43, "p"),
  F("omegadot", O(3, 16, 24), "s", -43, "p"),
  F("dn", O(3, 40, 16), "s", -43, "p"),
  F("cuc", O(3, 56, 16), "s", -29, "1"),
  F("cus", O(3, 72, 16), "s", -29, "1"),
  F("crc", O(3, 88, 16), "s", -5, "1"),
  F("crs", O(3, 104, 16), "s", -5, "1"),
  F("cic", O(4, 22, 16), "s", -29, "1"),
  F("cis", O(4, 38, 16), "s", -29, "1"),
  F("toc", O(4, 54, 14), "u", 0, "M"),
  F("af0", O(4, 68, 31), "s", -34, "1"),
  F("af1", O(4, 99, 21), "s", -46, "1"),
  F("af2", O(4, 120, 6), "s", -59, "1"),
  F("bgd5a", O(5, 47, 10), "s", -32, "1"),
  F("bgd5b", O(5, 57, 10), "s", -32, "1") }
SisaF == F("sisa", O(3, 120, 8), "u", 0, "1")
SatF == F("sat", O(4, 16, 6), "u", 0, "1")
E5bHsF == F("e5bhs", O(5, 67, 2), "u", 0, "1")
E1bHsF == F("e1bhs", O(5, 69, 2), "u", 0, "1")
WnF == F("wn", O(5, 73, 12), "u", 0, "1")
TowF == F("tow", O(5, 85, 20), "u", 0, "1")
AuxFields == {SisaF, SatF, E5bHsF, E1bHsF, WnF, TowF}
EF(n) == ByName(EphFields, n)
WeekS == 604800
\* accuracy (table 76) in centimetres; spare values promise no better than 6 m
SisaCm(i) == IF i < 50 THEN i
             ELSE IF i < 75 THEN 50 + 2 * (i - 50)
             ELSE IF i < 100 THEN 100 + 4 * (i - 75)
             ELSE IF i < 126 THEN 200 + 16 * (i - 100)
             ELSE IF i < 255 THEN 600 ELSE -100
\* usable while the status is "ok" or "will be out of service"
HsOk(h) == h \in {0, 2}
EphValid(m) == HsOk(Plain(m, E5bHsF)) /\ HsOk(Plain(m, E1bHsF))
\* a reference time gets the week nearest the time of transmission
Near(tow, m) == LET d == tow - Plain(m, TowF)
                IN 1024 + Plain(m, WnF) + (IF 2 * d > WeekS THEN -1 ELSE IF 2 * d < -WeekS THEN 1 ELSE 0)
Toe(m) == <<Near(60 * Plain(m, EF("toe")), m), 60 * Plain(m, EF("toe"))>>
Toc(m) == <<Near(60 * Plain(m, EF("toc")), m), 60 * Plain(m, EF("toc"))>>
Complete(m) == Toe(m)[2] < WeekS /\ Toc(m)[2] < WeekS
===============================================================================
