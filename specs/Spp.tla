----------------------------------- MODULE Spp ----------------------------------
(* Single-epoch position solver.  A measurement is a record                      *)
(*   [c code, s satellite, d direction, q strength (tenths dB-Hz), f faulty 0/1, *)
(*    dop Doppler measured 0/1]                                                   *)
(* taken by a receiver at a known place; the direction indexes a lattice of unit *)
(* vectors with rational entries, so geometry, observability and dilution of     *)
(* precision are exact.  From the measurements and the configuration the model   *)
(* derives which are used, how many unknowns there are and the allowed outcomes. *)
EXTENDS Signals
Seqs == INSTANCE SequencesExt
FoldLeft(op(_, _), base, seq) == Seqs!FoldLeft(op, base, seq)
SetToSeq(S) == Seqs!SetToSeq(S)
\* ---- thirty lattice directions, in thirds: (3,0,0), (1,2,2) up to order and sign
Dirs == <<<<3,0,0>>, <<-3,0,0>>, <<0,3,0>>, <<0,-3,0>>, <<0,0,3>>, <<0,0,-3>>,
  <<1,2,2>>, <<1,2,-2>>, <<1,-2,2>>, <<1,-2,-2>>, <<-1,2,2>>, <<-1,2,-2>>, <<-1,-2,2>>, <<-1,-2,-2>>,
  <<2,1,2>>, <<2,1,-2>>, <<2,-1,2>>, <<2,-1,-2>>, <<-2,1,2>>, <<-2,1,-2>>, <<-2,-1,2>>, <<-2,-1,-2>>,
  <<2,2,1>>, <<2,2,-1>>, <<2,-2,1>>, <<2,-2,-1>>, <<-2,2,1>>, <<-2,2,-1>>, <<-2,-2,1>>, <<-2,-2,-1>>>>
\* ---- which measurements are used
\* accumulated: used indices in order, constellations in order of first use
SatOf(m) == <<Cons(m.c), m.s>>
SatsOf(ms, U) == {SatOf(ms[i]) : i \in U}
RaimExclusions == 2
Wanted(st, m, ms, a) ==
  CASE st = "gps" -> Cons(m.c) = "GPS"
    [] st = "all" -> TRUE
    [] st = "l1" -> m.c \in {0, 14}
    [] st = "l1ca" -> \/ m.c = 0
                      \/ /\ Cardinality(SatsOf(ms, a.u)) <= 3 + Len(a.k) + RaimExclusions
                         /\ SatOf(m) \notin SatsOf(ms, a.u)
Strong(mask, m) == mask.on = 0 \/ m.q > mask.t
Admit(st, mask, ms, a, i) == LET m == ms[i] IN
  IF Wanted(st, m, ms, a) /\ Strong(mask, m)
  THEN [u |-> a.u \cup {i}, k |-> IF \E j \in DOMAIN a.k : a.k[j] = Cons(m.c) THEN a.k ELSE Append(a.k, Cons(m.c))]
  ELSE a
Used(st, mask, ms) == FoldLeft(LAMBDA a, i : Admit(st, mask, ms, a, i), [u |-> {}, k |-> <<>>], [i \in 1..Len(ms) |-> i] \o <<>>)
States(a) == 3 + Len(a.k)
\* ---- observability: differences of directions within a constellation span space
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Zero3 == <<0, 0, 0>>
Members(ms, U, c) == {i \in U : Cons(ms[i].c) = c}
Base(ms, U, c) == CHOOSE i \in Members(ms, U, c) : \A j \in Members(ms, U, c) : i <= j
Diffs(ms, U) == UNION {LET b == Base(ms, U, c) IN {Sub(Dirs[ms[i].d], Dirs[ms[b].d]) : i \in Members(ms, U, c)}
                       : c \in {Cons(ms[i].c) : i \in U}} \ {Zero3}
Spans(D) == LET first == CHOOSE x \in D : TRUE
                nrm == {Cross(first, y) : y \in D} \ {Zero3}
            IN D # {} /\ nrm # {} /\ LET p == CHOOSE x \in nrm : TRUE IN \E z \in D : Dot(p, z) # 0
\* enough to determine position and the clock of every constellation in k
Full(ms, U, k) == /\ \A j \in DOMAIN k : Members(ms, U, k[j]) # {}
                  /\ Spans(Diffs(ms, U))
\* ---- dilution of precision, exactly: information matrix of the position in
\* units of 1/(9 N), N the least common multiple of the constellation counts
GCD(a, b) == CHOOSE g \in 1..a : a % g = 0 /\ b % g = 0 /\ \A h \in (g + 1)..a : ~(a % h = 0 /\ b % h = 0)
LCM(a, b) == (a * b) \div GCD(a, b)
Counts(ms, U, k) == [j \in 1..Len(k) |-> Cardinality(Members(ms, U, k[j]))] \o <<>>
Ncm(ms, U, k) == FoldLeft(LAMBDA x, y : LCM(x, y), 1, Counts(ms, U, k))
SumDir(ms, U) == FoldLeft(LAMBDA v, i : <<v[1] + Dirs[ms[i].d][1], v[2] + Dirs[ms[i].d][2], v[3] + Dirs[ms[i].d][3]>>, Zero3, SetToSeq(U))
\* symmetric matrices as <<xx, xy, xz, yy, yz, zz>>
Outer(v, w) == <<w * v[1] * v[1], w * v[1] * v[2], w * v[1] * v[3], w * v[2] * v[2], w * v[2] * v[3], w * v[3] * v[3]>>
AddM(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6]>>
Zero6 == <<0, 0, 0, 0, 0, 0>>
Info(ms, U, k) == LET n == Ncm(ms, U, k)
                      all == FoldLeft(LAMBDA a, i : AddM(a, Outer(Dirs[ms[i].d], n)), Zero6, SetToSeq(U))
                  IN FoldLeft(LAMBDA a, j : LET M == Members(ms, U, k[j]) IN AddM(a, Outer(SumDir(ms, M), -(n \div Cardinality(M)))),
                              all, [j \in 1..Len(k) |-> j] \o <<>>)
Adj(a) == <<a[4] * a[6] - a[5] * a[5], a[3] * a[5] - a[2] * a[6], a[2] * a[5] - a[3] * a[4],
            a[1] * a[6] - a[3] * a[3], a[2] * a[3] - a[1] * a[5], a[1] * a[4] - a[2] * a[2]>>
Det(a) == LET b == Adj(a) IN a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Quad(b, v) == b[1] * v[1] * v[1] + b[4] * v[2] * v[2] + b[6] * v[3] * v[3]
              + 2 * (b[2] * v[1] * v[2] + b[3] * v[1] * v[3] + b[5] * v[2] * v[3])
\* exact evaluation stays inside 32 bits when
Small(ms, U, k) == Cardinality(U) * Ncm(ms, U, k) <= 190
\* p / q to four decimals (rounded down), by long division; q > 0, p >= 0
RECURSIVE Dec(_, _, _)
Dec(p, q, n) == IF n = 0 THEN p \div q ELSE 10 * Dec(p, q, n - 1) +
                ((10 * FoldLeft(LAMBDA r, i : (10 * r) % q, p % q, [i \in 1..(n - 1) |-> i] \o <<>>)) \div q)
Dec4(p, q) == IF p < 0 THEN -Dec(-p, q, 4) ELSE Dec(p, q, 4)
\* g = [n, det, adj, sums per constellation, counts]
Geo(ms, U, k) == LET m == Info(ms, U, k) IN [n |-> Ncm(ms, U, k), adj |-> Adj(m), det |-> Det(m)]
\* squares of the figures, in 1/10000
CovOf(g, j) == Dec4(9 * g.n * g.adj[j], g.det)
Pdop2(g) == Dec4(9 * g.n * (g.adj[1] + g.adj[4] + g.adj[6]), g.det)
\* first clock: 1/n1 + (s/n1)' cov (s/n1), s the sum of directions
Tdop2(g, ms, U, k) == LET M == Members(ms, U, k[1]) n1 == Cardinality(M) IN
  10000 \div n1 + Dec4((g.n \div n1) * Quad(g.adj, SumDir(ms, M)), g.det) \div n1
Vdop2(g, ax) == CovOf(g, IF ax = 1 THEN 1 ELSE IF ax = 2 THEN 4 ELSE 6)
\* covariance of position: variance v (hundredths) times the geometry, in 1/10000
\* ---- variances (hundredths of a square metre) of strong signals: nominal value of
\* the signal plus the elevation term, times sixteen without phase lock
BaseVar(c) == CASE c \in {0, 5} -> 40 [] Cons(c) = "GPS" -> 100 [] Cons(c) = "GLO" -> 800
                [] Cons(c) = "BDS" -> 50 [] Cons(c) = "GAL" -> 40 [] Cons(c) = "QZS" -> 100
\* (no noise model is published for SBAS: nothing is claimed about covariances)
Var(c, low, locked) == IF Cons(c) = "SBAS" THEN 0 ELSE (BaseVar(c) + (IF low = 1 THEN 40 ELSE 10)) * (IF locked = 1 THEN 1 ELSE 16)
\* ---- outcomes
TooFew == -7  HighDop == -1  BadAltitude == -2  TooFast == -3
\* geometry verdict for the measurements kept: "bad" (cannot be used), "good", "any"
First4(ms, U) == {i \in U : Cardinality({j \in U : j <= i /\ Cons(ms[j].c) = Cons(ms[i].c)}) <= 4}
Verdict(ms, U, k) ==
  LET S == IF Small(ms, U, k) THEN U ELSE First4(ms, U) IN
  IF ~Full(ms, U, k) THEN "bad"
  ELSE IF ~Full(ms, S, k) \/ ~Small(ms, S, k) THEN "any"
  ELSE LET g == Geo(ms, S, k) x == Pdop2(g) + Tdop2(g, ms, S, k) IN
       IF x > 4000020 THEN (IF S = U THEN "bad" ELSE "any")
       ELSE IF x < 3999900 THEN "good" ELSE "any"
\* the filter applied to a solution at altitude alt (m), speed sp (cm/s): allowed codes
Speeding(sp) == IF sp >= 51450 THEN "yes" ELSE IF sp <= 51439 THEN "no" ELSE "any"
Filtered(v, alt, vel, sp, ok) ==
  LET fast == IF vel THEN Speeding(sp) ELSE "no"
      after == IF alt < -1000 \/ alt > 1000000 THEN {BadAltitude}
               ELSE CASE fast = "yes" -> {TooFast} [] fast = "no" -> {ok} [] OTHER -> {TooFast, ok}
  IN CASE v = "bad" -> -6..-1 [] v = "good" -> after [] OTHER -> after \cup -6..-1
\* subsets of U of at most n elements
Few(U, n) == {K \in UNION {{{}}, {{i} : i \in U}, {{i, j} : i \in U, j \in U}} : Cardinality(K) <= n}
\* a gross error in the pseudorange (1), or in a Doppler that is used (2)
Faults(ms, U, vel) == {i \in U : ms[i].f = 1 \/ (ms[i].f = 2 /\ vel)}
\* any error in F shows up whichever (at most two) measurements are left out
Detectable(ms, U, k, F) ==
  LET spare == Cardinality(U) - 3 - Len(k) - 1 IN
  \A K \in Few(U, IF spare < RaimExclusions THEN (IF spare < 0 THEN 0 ELSE spare) ELSE RaimExclusions) : Full(ms, U \ (K \cup F), k)
\* a satellite below the horizon of a receiver on axis ax; from the centre of the
\* Earth the iteration is only sure to reach the receiver when there is none
Below(ax, m) == Dirs[m.d][ax] < 0
\* cfg: [st, mask, ax, raim, vel (Boolean: checking on, velocity asked for), alt, sp]
\* result: set of allowed <<code, used set kept>>; kept = {} when nothing is claimed
\* about the solution
Outcomes(cfg, ms) ==
  LET a == Used(cfg.st, cfg.mask, ms)
      U == a.u k == a.k
      n == Cardinality(U)
      vel == cfg.vel /\ \A i \in U : ms[i].dop = 1
      F == Faults(ms, U, vel)
      redundant == n > States(a)
      R == U \ F
      refused == {<<x, {}>> : x \in (-3..-1) \cup (IF cfg.raim THEN {-4, -5} ELSE {-6})}
      stray == IF \E i \in U : Below(cfg.ax, ms[i]) THEN refused ELSE {}
  IN IF Cardinality(SatsOf(ms, U)) < States(a) THEN {<<TooFew, {}>>}
     ELSE IF F = {}
     THEN stray \cup {<<x, U>> : x \in Filtered(Verdict(ms, U, k), cfg.alt, vel, cfg.sp, IF cfg.raim /\ redundant THEN 0 ELSE 2)}
     ELSE IF ~cfg.raim \/ ~redundant THEN refused \cup {<<2, {}>>}
     ELSE IF ~Detectable(ms, U, k, F) THEN refused \cup {<<0, {}>>, <<1, {}>>}
     ELSE LET fixed == {<<x, R>> : x \in Filtered(Verdict(ms, R, k), cfg.alt, vel, cfg.sp, 1)} IN
          IF Cardinality(F) = 1 /\ n >= States(a) + 2 /\ Cardinality(SatsOf(ms, R)) >= States(a)
          THEN stray \cup fixed ELSE refused \cup fixed
===============================================================================
