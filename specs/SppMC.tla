--------------------------------- MODULE SppMC ---------------------------------
(* An epoch grows by one measurement at a time; the laws tie the two independent *)
(* descriptions of geometry together and state what a user may rely on.          *)
EXTENDS Spp, TLC
CONSTANTS MaxN, Ordered
VARIABLE ms
\* G1 L1CA, G L2CM, E E1B, C B1 on a handful of directions above a receiver at the pole
Pal == {<<0, 1, 5>>, <<0, 2, 7>>, <<0, 3, 1>>, <<0, 4, 25>>, <<0, 5, 11>>, <<1, 2, 7>>, <<1, 6, 13>>, <<14, 1, 19>>, <<14, 2, 23>>, <<12, 3, 5>>, <<12, 9, 3>>}
Meas == {[c |-> p[1], s |-> p[2], d |-> p[3], q |-> q, f |-> 0, dop |-> 1] : p \in Pal, q \in {300}} \cup
        {[c |-> 0, s |-> 7, d |-> 17, q |-> 400, f |-> f, dop |-> 1] : f \in {0, 1, 2}} \cup
        {[c |-> 0, s |-> 8, d |-> 21, q |-> 310, f |-> f, dop |-> 0] : f \in {1, 2}}
Key(m) == ((m.c * 30 + m.s) * 3 + m.f) * 2 + m.dop
Sts == {"gps", "all", "l1ca", "l1"}
Masks == {[on |-> 0, t |-> 300], [on |-> 1, t |-> 300]}
Init == ms = <<>>
Next == /\ Len(ms) < MaxN
        /\ \E m \in Meas : /\ Ordered /\ ms # <<>> => Key(ms[Len(ms)]) < Key(m)
                           /\ \A i \in DOMAIN ms : <<ms[i].c, ms[i].s>> # <<m.c, m.s>>
                           /\ ms' = Append(ms, m)
\* two codes of one satellite come from one place
OnePlace == \A i, j \in DOMAIN ms : SatOf(ms[i]) = SatOf(ms[j]) => ms[i].d = ms[j].d
All == Used("all", Masks[1], ms)
Ua(st, k) == Used(st, k, ms)
AdmissionLaws == \A st \in Sts, k \in Masks : LET a == Used(st, k, ms) IN
  /\ a.u \subseteq DOMAIN ms
  /\ {a.k[j] : j \in DOMAIN a.k} = {Cons(ms[i].c) : i \in a.u}
  /\ Len(a.k) = Cardinality({Cons(ms[i].c) : i \in a.u})
  /\ (k.on = 1 => \A i \in a.u : ms[i].q > k.t)
  /\ (st = "gps" => a.k \in {<<>>, <<"GPS">>})
  /\ (st = "l1" => \A i \in a.u : ms[i].c \in {0, 14})
  \* the legacy strategy never drops an L1 C/A signal and never takes a second
  \* signal of a satellite unless it is L1 C/A
  /\ (st = "l1ca" => /\ \A i \in DOMAIN ms : ms[i].c = 0 /\ Strong(k, ms[i]) => i \in a.u
                     /\ \A i, j \in a.u : i < j /\ SatOf(ms[i]) = SatOf(ms[j]) => ms[j].c = 0)
  /\ (st = "all" => a.u = {i \in DOMAIN ms : Strong(k, ms[i])})
A0 == Used("all", [on |-> 0, t |-> 0], ms)
Obs == Full(ms, A0.u, A0.k)
\* two descriptions of observability agree; too few unknown-free satellites are
\* never observable; the information matrix is positive semidefinite
GeometryLaws == ms # <<>> /\ Small(ms, A0.u, A0.k) => LET m == Info(ms, A0.u, A0.k) IN
  /\ (Det(m) # 0) <=> Obs
  /\ Det(m) >= 0 /\ m[1] >= 0 /\ m[4] >= 0 /\ m[6] >= 0
  /\ (Len(ms) < States(A0) => ~Obs)
Prev == SubSeq(ms, 1, Len(ms) - 1)
\* one more measurement of a constellation already seen never worsens the geometry
Monotone == (Obs /\ Small(ms, A0.u, A0.k) /\ Len(ms) > 1) =>
  LET b == Used("all", [on |-> 0, t |-> 0], Prev) IN
  (b.k = A0.k /\ Full(Prev, b.u, b.k) /\ Small(Prev, b.u, b.k)) =>
     /\ Pdop2(Geo(ms, A0.u, A0.k)) <= Pdop2(Geo(Prev, b.u, b.k)) + 3
     /\ Tdop2(Geo(ms, A0.u, A0.k), ms, A0.u, A0.k) <= Tdop2(Geo(Prev, b.u, b.k), Prev, b.u, b.k) + 3
Cfg(st, mask, raim, vel, sp) == [st |-> st, mask |-> mask, ax |-> 3, raim |-> raim, vel |-> vel, alt |-> 100, sp |-> sp]
OutcomeLaws == \A st \in Sts, mask \in Masks, raim \in BOOLEAN, sp \in {0, 60000} :
  LET o == Outcomes(Cfg(st, mask, raim, TRUE, sp), ms) a == Used(st, mask, ms) F == Faults(ms, a.u, \A i \in a.u : ms[i].dop = 1) IN
  /\ o # {}
  \* too few is reported exactly when satellites are fewer than unknowns
  /\ ((\E x \in o : x[1] = TooFew) <=> Cardinality(SatsOf(ms, a.u)) < 3 + Len(a.k))
  \* a solution claimed to be clean or repaired contains no faulty measurement
  /\ \A x \in o : x[1] >= 0 /\ x[2] # {} => x[2] \cap F = {}
  /\ \A x \in o : x[1] = 0 /\ x[2] # {} => raim /\ F = {} /\ Cardinality(a.u) > States(a)
  \* nothing fast is released when velocity is known
  /\ (sp = 60000 /\ \A i \in a.u : ms[i].dop = 1) => \A x \in o : x[1] >= 0 => x[2] = {}
===============================================================================
