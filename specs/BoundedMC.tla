------------------------------- MODULE BoundedMC ------------------------------
EXTENDS Bounded, TLC
CONSTANT N
VARIABLES d, ds, s, n, m, p
Mem == [i \in 1..N |-> i] \o << >>
Init == /\ d \in 0..N /\ ds \in 0..(N + 1) /\ (d = 0 \/ d + ds <= N + 1) /\ s \in 0..N /\ n \in 0..(N + 1) /\ (s = 0 \/ n > ds \/ s + n <= N + 1)
        /\ m = CopyMemory(Mem, d, ds, s, n)
        /\ p \in UNION {[1..k -> {SL, 97}] : k \in 0..5}
Next == UNCHANGED <<d, ds, s, n, m, p>>
\* only the first n bytes of the destination change, and only on success
Contained == \A i \in 1..N : m[i] # i => CopyResult(d, ds, s, n) = "OK" /\ i \in d..(d + n - 1) /\ n <= ds
\* on success the destination holds what the source held
Copied == CopyResult(d, ds, s, n) = "OK" => \A i \in 0..(n - 1) : m[d + i] = s + i
\* on success the source is as it was, too (nothing shared but an identical area)
SourceKept == CopyResult(d, ds, s, n) = "OK" => \A i \in 0..(n - 1) : m[s + i] = s + i
\* paths: no separator inside or at the end of a component; trimming is idempotent
Component == LET t == Trim(p) IN (t = <<SL>> \/ \A i \in DOMAIN t : t[i] # SL) /\ Trim(t) = t
TrailingFree == Trim(Append(p, SL)) = (IF p = <<>> THEN <<SL>> ELSE Trim(p))
PrefixFree == (p # <<>> /\ Trim(p) # <<SL>> /\ p[1] # SL) => Trim(<<97, SL>> \o p) = Trim(p)
LenBounded == \A k \in 0..5 : k <= Len(p) => BoundedLen(p, k) <= k /\ BoundedLen(p, k) <= BoundedLen(Append(p, 0), k)
===============================================================================
