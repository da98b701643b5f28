----------------------------- MODULE SignalsTrace -----------------------------
(* Every recorded answer of the real code about codes and signal ids equals    *)
(* the catalogue's.                                                            *)
EXTENDS Signals, Tr
VARIABLE l
E == Trace[l]
CodeOk == LET d == Code(E.c) IN
  /\ ValidCode(E.c)
  /\ E.cons = ConsNum(d.c) /\ E.scons = E.cons
  /\ E.is = [i \in 1..6 |-> Bool(<<"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL">>[i] = d.c)]
  /\ E.name = d.name /\ E.back = E.c
  /\ E.first = First(E.c) /\ E.nsat = Count(E.c) /\ E.sig = d.sig
  /\ E.chips = d.chips /\ E.rate = d.rate /\ E.ratex = 1 /\ E.prn = d.prn
  /\ E.acq = d.acq /\ E.dec = d.dec
  /\ E.dmax = d.dop /\ E.dmin = -d.dop /\ E.sym = 1
  /\ E.ph = d.ph * 1024
  /\ E.l1 = L1Code[d.c] /\ E.l5 = L5Code[d.c]
CarrOk == /\ E.hz = CarrierHz(E.c, IF Cons(E.c) = "GLO" THEN E.fcn ELSE 8)
          /\ E.hzx = 1 /\ E.ppt \in -1..1
ConsvOk == /\ E.v = Bool(E.k \in 0..5)
           /\ E.ch = IF E.k \in 0..5 THEN ConsChar[CONS[E.k + 1]] ELSE "?"
           /\ E.l1 = IF E.k \in 0..5 THEN L1Code[CONS[E.k + 1]] ELSE -1
           /\ E.l5 = IF E.k \in 0..5 THEN L5Code[CONS[E.k + 1]] ELSE -1
ConsOk == E.str = CONS[E.k + 1] /\ E.back = E.k /\ E.n = NumSats[CONS[E.k + 1]]
SubOk == E.str = SubCons[E.k + 1] /\ E.back = E.k /\ E.cons = ConsNum(SubToCons[E.str])
Find(seq, x) == IF \E i \in DOMAIN seq : seq[i] = x THEN (CHOOSE i \in DOMAIN seq : seq[i] = x) - 1 ELSE -1
ChOk == E.r = Find([i \in 1..6 |-> ConsChar[CONS[i]]], E.ch)
NameSeq == [i \in 1..NCODES |-> CodeTable[i].name]
S2cOk == E.r = Find(NameSeq, E.s) /\ E.k = Find(CONS, E.s) /\ E.u = Find(SubCons, E.s)
SblOk == {E.l[i] : i \in DOMAIN E.l} \ {0} = SbasSystems[E.k + 1]
CodeName(c) == IF ValidCode(c) THEN Code(c).name ELSE "?"
SidName == CodeName(E.c) \o " " \o ToString(E.s)
SidOk == /\ E.cc = E.c /\ E.cs = E.s
         /\ E.v = Bool(ValidSid(E.c, E.s))
         /\ E.name = SidName /\ E.n = Len(SidName) /\ E.slen = E.n /\ E.term = 1 /\ E.over = 0
         /\ E.sname = CodeName(E.c) \o E.sx \o ToString(E.s) /\ E.sn = Len(E.sname) /\ E.sl = E.sn
         /\ E.nl2p = Bool(IF ValidCode(E.c) THEN Code(E.c).name # "GPS L2P" ELSE TRUE)
         /\ E.v = 1 => E.ix = Index(E.c, E.s) /\ E.bc = E.c /\ E.bs = E.s
CmpOk == \A j \in DOMAIN E.bc :
  LET a == <<E.c, E.s>> b == <<E.bc[j], E.bs[j]>>
      o == IF a = b THEN 0 ELSE IF SidLess(a, b) THEN -1 ELSE 1
  IN E.lt[j] = o /\ E.cm[j] = o /\ E.eq[j] = Bool(a = b) /\ E.he[j] = E.eq[j]
\* equal and the three comparisons that hold of equals; less; greater
OpsOk == \A j \in DOMAIN E.bc :
  LET a == <<E.c, E.s>> b == <<E.bc[j], E.bs[j]>>
  IN E.m[j] = IF a = b THEN 1 + 16 + 32 ELSE IF SidLess(a, b) THEN 2 + 4 + 16 ELSE 2 + 8 + 32
Ok == CASE E.e = "code" -> CodeOk
        [] E.e = "carr" -> CarrOk
        [] E.e = "cv" -> E.v = Bool(ValidCode(E.c))
        [] E.e = "consv" -> ConsvOk
        [] E.e = "cons" -> ConsOk
        [] E.e = "sub" -> SubOk
        [] E.e = "ch" -> ChOk
        [] E.e = "chx" -> E.r = -1
        [] E.e = "s2c" -> S2cOk
        [] E.e = "sbl" -> SblOk
        [] E.e = "sbs" -> E.r = SbasSystem(E.s)
        [] E.e = "sid" -> SidOk
        [] E.e = "cmp" -> CmpOk
        [] E.e = "ops" -> OpsOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Ok /\ l' = l + 1
===============================================================================
