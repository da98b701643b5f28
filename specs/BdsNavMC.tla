-------------------------------- MODULE BdsNavMC -------------------------------
EXTENDS BdsNav, TLC
Nil == [i \in 1..300 |-> 0]
Blank == <<Nil, Nil, Nil>>
All == EphFields \cup {UraF, WnF} \cup {[g EXCEPT !.n = "iono" \o g.n] : g \in IonoFields}
VARIABLE f
Init == f \in All
Next == UNCHANGED f
\* words 1: 26 information bits, the others 22, then parity; the first 30 bits
\* of a subframe and the 12 after them are preamble, identity and time
DataBitsOnly == \A q \in Places(f) : q[1] \in 1..3 /\ q[2] \in 43..300 /\ ((q[2] - 1) % 30) < 22
Apart == \A g \in All : g.n # f.n => Places(f) \cap Places(g) = {}
Alone == Independent(f, All, Blank)
\* every information bit of subframes 2 and 3 behind the header is used
Used == UNION {Places(g) : g \in All}
Information(sf) == {<<sf, q>> : q \in {q \in 43..300 : ((q - 1) % 30) < 22}}
Covered == Information(2) \subseteq Used
           /\ Information(3) \ Used = {<<3, 292>>}
\* the identity is of whole bytes, zero for an empty message, and every bit of its fields shows in it
InOrder == f.n \in {Order[i] : i \in DOMAIN Order}
Whole == Len(Gather(Blank, 1)) % 8 = 0 /\ Identity(Blank) = 0
Shows == InOrder => \A q \in Places(f) : Identity([Blank EXCEPT ![q[1]] = [@ EXCEPT ![q[2]] = 1]]) # 0
Blind == ~InOrder => \A q \in Places(f) : Identity([Blank EXCEPT ![q[1]] = [@ EXCEPT ![q[2]] = 1]]) = 0
===============================================================================
