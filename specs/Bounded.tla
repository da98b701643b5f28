-------------------------------- MODULE Bounded -------------------------------
(* Checked copies, bounded string length, membership, path trimming and the     *)
(* message log.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---- checked copy within a memory m (sequence of bytes, addresses from 1).
\* d, s: addresses, 0 for null; ds: size of the destination, n: bytes asked for
\* the two areas: the whole destination and the bytes to be read; a copy of an
\* area onto itself is no overlap
Overlaps(d, ds, s, n) == s # d /\ (s \in d..(d + ds - 1) \/ d \in s..(s + n - 1))
CopyResult(d, ds, s, n) ==
  IF d = 0 THEN "DEST_NULL"
  ELSE IF s = 0 THEN "SRC_NULL"
  ELSE IF ds = 0 THEN "DEST_SIZE_ZERO"
  ELSE IF n = 0 THEN "SRC_SIZE_ZERO"
  ELSE IF n > ds THEN "OVERSIZED"
  ELSE IF Overlaps(d, ds, s, n) THEN "OVERLAP"
  ELSE "OK"
CopyMemory(m, d, ds, s, n) ==
  IF CopyResult(d, ds, s, n) # "OK" THEN m
  ELSE [i \in DOMAIN m |-> IF i \in d..(d + n - 1) THEN m[s + i - d] ELSE m[i]]
\* ---- length of a zero terminated string within a bound --------------------------
BoundedLen(b, max) ==
  LET z == {i \in DOMAIN b : i <= max /\ b[i] = 0} IN IF z = {} THEN max ELSE (CHOOSE i \in z : \A j \in z : i <= j) - 1
\* ---- membership in the first n elements -------------------------------------------
Member(a, n, x) == \E i \in 1..n : a[i] = x
\* ---- last component of a path; SL is the separator --------------------------------
SL == 47
RECURSIVE Strip(_)
Strip(p) == IF p # <<>> /\ Last(p) = SL THEN Strip(Front(p)) ELSE p
RECURSIVE TakeBack(_)
TakeBack(p) == IF p = <<>> \/ Last(p) = SL THEN <<>> ELSE Append(TakeBack(Front(p)), Last(p))
Trim(p) == IF p = <<>> THEN <<>> ELSE IF Strip(p) = <<>> THEN <<SL>> ELSE TakeBack(Strip(p))
\* ---- the log -----------------------------------------------------------------------
\* the installed pair of sinks: "default" or a name; levels 0 (emergency) to 7
\* (debug); a threshold of the compilation unit, and debugging switched on in it
LevelName == <<"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG">>
Emitted(kind, level, threshold, debug) == threshold >= level \/ (level = 7 /\ debug)
\* installing needs both implementations or none, which restores the default
Installed(old, plain, detailed) ==
  IF plain = "none" /\ detailed = "none" THEN <<"default", "default">>
  ELSE IF plain = "none" \/ detailed = "none" THEN old ELSE <<plain, detailed>>
InstallRefused(plain, detailed) == (plain = "none") # (detailed = "none")
\* rate limiting: the first message, then those at least a threshold of ticks after
\* the last one let through; a clock that went back counts as having wrapped
LetThrough(first, last, now, threshold) == first \/ now < last \/ now - last >= threshold
===============================================================================
