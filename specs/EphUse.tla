-------------------------------- MODULE EphUse --------------------------------
(* Whether an ephemeris (or almanac) may be used at a time.  Times are instants *)
(* <<week, ticks>> of module Time; SEC ticks make a second.                      *)
EXTENDS Health
CONSTANTS WK, SEC
T == INSTANCE Time
\* an ephemeris: c code, valid, toe, toc (instants), fit (seconds), w health bits,
\* ura, src source, iode, iodc, iod (GLONASS)
Low8(x) == x % 256
IodOk(e) ==
  CASE Cons(e.c) \in {"GPS", "QZS"} -> e.iodc <= 1023 /\ e.iode <= 255 /\ Low8(e.iodc) = e.iode
    [] Cons(e.c) = "BDS" -> IF e.src = 0 THEN e.iodc <= 240 /\ e.iode <= 240
                            ELSE e.iodc <= 1023 /\ e.iode <= 255 /\ Low8(e.iodc) = e.iode
    [] Cons(e.c) = "GAL" -> e.iodc <= 1023 /\ e.iodc = e.iode
    [] Cons(e.c) = "GLO" -> e.iod <= 127
    [] OTHER -> TRUE
\* what is wrong with an ephemeris, in order of precedence
Status(e) == IF e.valid = 0 THEN "INVALID"
             ELSE IF e.toe[1] = 0 THEN "WN_EQ_0"
             ELSE IF e.fit = 0 THEN "FIT_INTERVAL_EQ_0"
             ELSE IF ~EphHealthy(e.valid, e.w, e.ura, e.c) THEN "UNHEALTHY"
             ELSE IF ~IodOk(e) THEN "INVALID_IOD"
             ELSE "VALID"
\* reference time and time of interest with their weeks filled in from each other
FillWeek(u, ref) == LET m == T!Match(u, ref) IN <<IF m[1] < 0 THEN 0 ELSE m[1], m[2]>>
Fill(toe, t) == LET r == IF toe[1] = T!UNK /\ t[1] = T!UNK THEN <<2, toe[2]>> ELSE toe
                IN IF r[1] = T!UNK THEN <<FillWeek(r, t), t>>
                   ELSE IF t[1] = T!UNK THEN <<r, FillWeek(t, r)>> ELSE <<r, t>>
\* the window opens half a fit interval before the reference time, or at it
Centred(e) == Cons(e.c) \in {"GPS", "QZS", "GLO"}
Always(e) == Cons(e.c) = "SBAS"
HasToc(e) == Cons(e.c) \in {"GPS", "QZS", "BDS", "GAL"}
Opens(e, toe) == IF Centred(e) THEN T!Add(toe, -(e.fit \div 2) * SEC) ELSE toe
Closes(e, toe) == IF Centred(e) THEN T!Add(toe, (e.fit \div 2) * SEC) ELSE T!Add(toe, e.fit * SEC)
\* parameters are good at a time in the window, if their clock reference time
\* was stamped and lies in the window too
ParamsOk(bgn, end, hastoc, toc, t) ==
  /\ T!InRange(bgn, end, t)
  /\ hastoc => toc[1] # 0 /\ T!InRange(bgn, end, toc)
InWindow(e, t) == \/ Always(e)
                  \/ LET f == Fill(e.toe, t) toe == f[1] tm == f[2]
                     IN ParamsOk(Opens(e, toe), Closes(e, toe), HasToc(e), e.toc, tm)
Detailed(e, t) == LET s == Status(e) IN IF s # "VALID" THEN s ELSE IF InWindow(e, t) THEN "VALID" ELSE "TOO_OLD"
Usable(e, t) == Detailed(e, t) = "VALID"
\* ---- almanacs: c code, valid, w health word, fit, toa ---------------------------
AlmUsable(a, t) ==
  /\ a.valid = 1 /\ AlmanacHealthy(a.w, a.c) /\ a.fit > 0 /\ a.toa[1] # 0
  /\ LET d == T!Diff(t, a.toa) h == T!Norm(0, (a.fit \div 2) * SEC)
     IN T!LessEq(d, h) /\ T!LessEq(T!Negate(d), h)
===============================================================================
