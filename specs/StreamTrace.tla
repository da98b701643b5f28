------------------------------ MODULE StreamTrace -----------------------------
EXTENDS Stream, Tr
VARIABLES l, len, off, data, kind, end
vars == <<l, len, off, data, kind, end>>
E == Trace[l]
In(pos, n) == Inside(len, off, pos, n)
N2(k) == <<0, k>>
\* position of the addressed unit, for accepted (hence small) ranges
At(pos) == off[2] * B16 + off[3] + Small(pos)
Canary == <<0, 0, 0, 0>>
Seen == /\ E.off = <<off'[2], off'[3]>>          \* cursor field after the call
        /\ LET r == Remaining(len', off') IN r[1] = 0 /\ E.rem = <<r[2], r[3]>>
Keep == UNCHANGED <<len, off, data, kind, end>>
SliceB(p, n) == SubSeq(data, p + 1, p + n)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* decoded value as 8 bytes, most significant first
Want(sgn, n) == LET raw == SliceB(At(N2(0)), n)
                    be == IF end = 1 THEN raw ELSE Rev(raw)
                    sx == IF sgn = 1 /\ be[1] >= 128 THEN 255 ELSE 0
                IN [i \in 1..8 |-> IF i <= 8 - n THEN sx ELSE be[i - (8 - n)]]
TInit == l = 1 /\ len = <<0, 0>> /\ off = <<0, 0, 0>> /\ data = <<>> /\ kind = "none" /\ end = 0
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE E.e = "init" -> /\ len' = E.len /\ off' = <<0, 0, 0>> /\ data' = E.d /\ kind' = E.kind /\ end' = E.end
       [] E.e = "rm" -> /\ off' = Add3(off, W3(E.n)) /\ off'[1] = 0 /\ UNCHANGED <<len, data, kind, end>>
       [] E.e = "wo" -> Keep /\ E.r = Bool(~In(E.p, E.n))
       [] E.e = "bytes" -> Keep /\ E.r = Bool(In(E.p, E.n))
                           /\ E.o = IF E.r = 1 THEN SliceB(At(E.p), Small(E.n)) ELSE E.c
       [] E.e = "dec" -> /\ E.r = Bool(In(N2(0), N2(E.n)))
                         /\ IF E.r = 1 THEN /\ off' = Add3(off, <<0, 0, E.n>>)
                                            /\ E.o = Want(E.s, E.n)
                            ELSE off' = off /\ E.o = E.c
                         /\ UNCHANGED <<len, data, kind, end>>
       [] E.e = "bits" -> /\ Keep /\ E.r = Bool(In(E.p, E.n))
                          /\ IF E.r = 1
                             THEN LET f == Field(data, At(E.p), Small(E.n))
                                  IN BitsW(E.o) = IF E.s = 1 THEN Sext(f, 64) ELSE Zext(f, 64)
                             ELSE E.o = E.c
       [] E.e = "put" -> /\ E.r = Bool(In(E.p, E.n)) /\ UNCHANGED <<len, off, kind, end>>
                         /\ data' = E.d
                         /\ Bits(data') = IF E.r = 1 THEN SetF(Bits(data), At(E.p), Low(BitsW(E.v), Small(E.n)))
                                          ELSE Bits(data)
  /\ Seen
===============================================================================
