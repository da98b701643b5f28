--------------------------------- MODULE Lnav ---------------------------------
(* The GPS LNAV message (IS-GPS-200, figure 20-1 and tables 20-I, -III, -VI,    *)
(* -IX, -X): subframes 1 to 3 and the pages of subframes 4 and 5.                *)
EXTENDS NavField, WeekCycle
F(n, p, s, k, b) == [n |-> n, p |-> p, s |-> s, u |-> <<k, b>>]
W(sf, w, a, b) == W30(sf, w, a, b)
EphFields == {
  F("tgd", <<W(1, 7, 17, 24)>>, "s", -31, "1"),
  F("iodc", <<W(1, 3, 23, 24), W(1, 8, 1, 8)>>, "u", 0, "1"),
  F("toc", <<W(1, 8, 9, 24)>>, "u", 4, "1"),
  F("af2", <<W(1, 9, 1, 8)>>, "s", -55, "1"),
  F("af1", <<W(1, 9, 9, 24)>>, "s", -43, "1"),
  F("af0", <<W(1, 10, 1, 22)>>, "s", -31, "1"),
  F("health", <<W(1, 3, 17, 22)>>, "u", 0, "1"),
  F("crs", <<W(2, 3, 9, 24)>>, "s", -5, "1"),
  F("dn", <<W(2, 4, 1, 16)>>, "s", -43, "p"),
  F("m0", <<W(2, 4, 17, 24), W(2, 5, 1, 24)>>, "s", -31, "p"),
  F("cuc", <<W(2, 6, 1, 16)>>, "s", -29, "1"),
  F("ecc", <<W(2, 6, 17, 24), W(2, 7, 1, 24)>>, "u", -33, "1"),
  F("cus", <<W(2, 8, 1, 16)>>, "s", -29, "1"),
  F("sqrta", <<W(2, 8, 17, 24), W(2, 9, 1, 24)>>, "u", -19, "1"),
  F("toe", <<W(2, 10, 1, 16)>>, "u", 4, "1"),
  F("cic", <<W(3, 3, 1, 16)>>, "s", -29, "1"),
  F("omega0", <<W(3, 3, 17, 24), W(3, 4, 1, 24)>>, "s", -31, "p"),
  F("cis", <<W(3, 5, 1, 16)>>, "s", -29, "1"),
  F("inc", <<W(3, 5, 17, 24), W(3, 6, 1, 24)>>, "s", -31, "p"),
  F("crc", <<W(3, 7, 1, 16)>>, "s", -5, "1"),
  F("w", <<W(3, 7, 17, 24), W(3, 8, 1, 24)>>, "s", -31, "p"),
  F("omegadot", <<W(3, 9, 1, 24)>>, "s", -43, "p"),
  F("iode", <<W(3, 10, 1, 8)>>, "u", 0, "1"),
  F("inc_dot", <<W(3, 10, 9, 22)>>, "s", -43, "p") }
\* fields that only feed derived values
WnF == F("wn", <<W(1, 3, 1, 10)>>, "u", 0, "1")
UraF == F("ura", <<W(1, 3, 13, 16)>>, "u", 0, "1")
Iode2F == F("iode2", <<W(2, 3, 1, 8)>>, "u", 0, "1")
FitF == F("fit", <<W(2, 10, 17, 17)>>, "u", 0, "1")
AuxFields == {WnF, UraF, Iode2F, FitF}
EF(n) == ByName(EphFields, n)
\* curve fit interval in hours (table 20-XII)
FitHours(flag, iodc) ==
  IF flag = 0 THEN 4
  ELSE IF iodc \in 240..247 THEN 8
  ELSE IF iodc \in (248..255) \cup {496} THEN 14
  ELSE IF iodc \in (497..503) \cup (1021..1023) THEN 26
  ELSE IF iodc \in 504..510 THEN 50
  ELSE IF iodc \in {511} \cup (752..756) THEN 74
  ELSE IF iodc = 757 THEN 98
  ELSE 6
\* accuracy in 0.1 mm (section 20.3.3.3.1.3); index 15: no accuracy is promised
UraTable == <<20000, 28000, 40000, 57000, 80000, 113000, 160000, 320000, 640000, 1280000,
              2560000, 5120000, 10240000, 20480000, 40960000, 61440000>>
WeekS == 604800
\* reference time: the week is that of the message, moved when the time of week
\* is more than half a week from the time of transmission
ToeOf(m, tow, ref) ==
  LET wn == Resolve(Plain(m, WnF), ref, 1024)
      toe == 16 * Plain(m, EF("toe"))
      d == toe - tow
  IN IF toe >= WeekS THEN <<wn, toe>>
     ELSE <<IF 2 * d > WeekS THEN wn - 1 ELSE IF 2 * d < -WeekS THEN wn + 1 ELSE wn, toe>>
IssuesAgree(m) == LET i == Plain(m, EF("iode")) IN
                  Plain(m, Iode2F) = i /\ (Plain(m, EF("iodc")) % 256) = i
EphValid(m) == IssuesAgree(m) /\ 16 * Plain(m, EF("toe")) < WeekS

\* ---- pages: one subframe, 1 ------------------------------------------------
DataIdF == F("dataid", <<W(1, 3, 1, 2)>>, "u", 0, "1")
PageF == F("svid", <<W(1, 3, 3, 8)>>, "u", 0, "1")
IsPage(m, id) == Plain(m, DataIdF) = 1 /\ Plain(m, PageF) = id
IonoFields == {
  F("a0", <<W(1, 3, 9, 16)>>, "s", -30, "1"), F("a1", <<W(1, 3, 17, 24)>>, "s", -27, "1"),
  F("a2", <<W(1, 4, 1, 8)>>, "s", -24, "1"), F("a3", <<W(1, 4, 9, 16)>>, "s", -24, "1"),
  F("b0", <<W(1, 4, 17, 24)>>, "s", 11, "1"), F("b1", <<W(1, 5, 1, 8)>>, "s", 14, "1"),
  F("b2", <<W(1, 5, 9, 16)>>, "s", 16, "1"), F("b3", <<W(1, 5, 17, 24)>>, "s", 16, "1") }
UtcFields == {
  F("a1", <<W(1, 6, 1, 24)>>, "s", -50, "1"),
  F("a0", <<W(1, 7, 1, 24), W(1, 8, 1, 8)>>, "s", -30, "1"),
  F("tot", <<W(1, 8, 9, 16)>>, "u", 12, "1"),
  F("dt_ls", <<W(1, 9, 1, 8)>>, "s", 0, "1"),
  F("dt_lsf", <<W(1, 10, 1, 8)>>, "s", 0, "1") }
UF(n) == ByName(UtcFields, n)
WntF == F("wnt", <<W(1, 8, 17, 24)>>, "u", 0, "1")
WnLsfF == F("wnlsf", <<W(1, 9, 9, 16)>>, "u", 0, "1")
DnF == F("dn", <<W(1, 9, 17, 24)>>, "u", 0, "1")
UtcAux == {WntF, WnLsfF, DnF}
UtcOk(m) == IsPage(m, 56) /\ Plain(m, DnF) \in 1..7
\* a number of 2^-43 units given as raw * k, in units of 2^-20 (rounded down a little)
Mul20(raw, k) == LET r1 == raw \div 4096 r0 == raw % 4096 k1 == k \div 4096 k0 == k % 4096
                 IN (2 * r1 * k1) + ((r1 * k0 + r0 * k1) \div 2048) + ((r0 * k0) \div 8388608)
\* the leap second starts at the midnight ending day dn, by the UTC clock that
\* is in force before it: <<week, seconds, 2^-20 seconds>>, not normalised
LseOf(m, ref) ==
  LET wl == Resolve(Plain(m, WnLsfF), ref, 256)
      wt == Resolve(Plain(m, WntF), ref, 256)
      s == 86400 * Plain(m, DnF)
      k == 4725 * (wl - wt) + 675 * Plain(m, DnF) - 32 * Plain(m, UF("tot"))  \* (lse - tot) / 128 s
      a0 == Value(m, UF("a0"))
  IN <<wl, s + Plain(m, UF("dt_ls")), (64 * a0[1]) + (a0[2] \div 1024) + Mul20(Plain(m, UF("a1")), k)>>
\* ---- almanac -----------------------------------------------------------------
AlmFields == {
  F("ecc", <<W(1, 3, 9, 24)>>, "u", -21, "1"),
  F("toa", <<W(1, 4, 1, 8)>>, "u", 12, "1"),
  F("dinc", <<W(1, 4, 9, 24)>>, "s", -19, "p"),          \* relative to 0.3 semicircles
  F("omegadot", <<W(1, 5, 1, 16)>>, "s", -38, "p"),
  F("health", <<W(1, 5, 17, 24)>>, "u", 0, "1"),
  F("sqrta", <<W(1, 6, 1, 24)>>, "u", -11, "1"),
  F("omega0", <<W(1, 7, 1, 24)>>, "s", -23, "p"),
  F("w", <<W(1, 8, 1, 24)>>, "s", -23, "p"),
  F("m0", <<W(1, 9, 1, 24)>>, "s", -23, "p"),
  F("af0", <<W(1, 10, 1, 8), W(1, 10, 20, 22)>>, "s", -20, "1"),
  F("af1", <<W(1, 10, 9, 19)>>, "s", -38, "1") }
AlmOk(m) == Plain(m, DataIdF) = 1 /\ Plain(m, PageF) \in 1..32
WnaF == F("wna", <<W(1, 3, 17, 24)>>, "u", 0, "1")
ToaF == F("toa", <<W(1, 3, 9, 16)>>, "u", 12, "1")
\* health pages: satellites 1-24 on the page with id 51, 25-32 on that with id 63
HealthF(sv) == IF sv <= 24 THEN F("h", <<W(1, 4 + ((sv - 1) \div 4), 1 + 6 * ((sv - 1) % 4), 6 + 6 * ((sv - 1) % 4))>>, "u", 0, "1")
               ELSE IF sv = 25 THEN F("h", <<W(1, 8, 19, 24)>>, "u", 0, "1")
               ELSE IF sv <= 29 THEN F("h", <<W(1, 9, 1 + 6 * (sv - 26), 6 + 6 * (sv - 26))>>, "u", 0, "1")
               ELSE F("h", <<W(1, 10, 1 + 6 * (sv - 30), 6 + 6 * (sv - 30))>>, "u", 0, "1")
HealthOf(m, sv) == IF (sv <= 24 /\ IsPage(m, 51)) \/ (sv > 24 /\ IsPage(m, 63))
                   THEN <<1, Plain(m, HealthF(sv))>> ELSE <<0, 0>>
===============================================================================
