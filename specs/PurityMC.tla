------------------------------- MODULE PurityMC -------------------------------
(* Which ways of computing answer by the book in every history and schedule?   *)
(* Two contexts (threads, or a call nested in another) compute F in two steps; *)
(* the registry changes only between calls.  Ways of computing:                *)
(*   local    the intermediate value is the call's own                         *)
(*   scratch  it lies in storage shared by all calls                           *)
(*   partial  the last answer is kept under a part of the arguments            *)
(*   stale    ... under the arguments but not the registry                     *)
(*   torn     ... under everything, the key stored before the answer           *)
(*   once     ... under everything, stored in one step                         *)
(* TLC shows that local and once always agree with the book, and (Caught) that *)
(* the property is not vacuous: each other way is found to disagree.           *)
EXTENDS Purity
Ctx == {1, 2}
Arg == 0..2
Reg == {0, 1}
Ways == {"local", "scratch", "partial", "stale", "torn", "once"}
F(x, r) == (x * x + 2 * r + 1) % 7
Book == [k \in Arg \X Reg |-> F(k[1], k[2])]
VARIABLES way, reg, pc, arg, mine, shared, key, val, wrong
vars == <<way, reg, pc, arg, mine, shared, key, val, wrong>>
KeyOf(x) == CASE way = "partial" -> <<x % 2, 0>> [] way = "stale" -> <<x, 0>> [] OTHER -> <<x, reg>>
Cached == way \notin {"local", "scratch"}
Init == /\ way \in Ways /\ reg = 0 /\ pc = [c \in Ctx |-> "idle"] /\ arg = [c \in Ctx |-> 0]
        /\ mine = [c \in Ctx |-> 0] /\ shared = 0 /\ key = <<-1, -1>> /\ val = 0 /\ wrong = FALSE
Return(c, r) == /\ pc' = [pc EXCEPT ![c] = "idle"] /\ wrong' = (wrong \/ ~Answer(Book, <<arg[c], reg>>, r))
Enter(c) == /\ pc[c] = "idle" /\ \E x \in Arg : arg' = [arg EXCEPT ![c] = x]
            /\ pc' = [pc EXCEPT ![c] = "first"] /\ UNCHANGED <<way, reg, mine, shared, key, val, wrong>>
First(c) == /\ pc[c] = "first"
            /\ IF Cached /\ key = KeyOf(arg[c])
               THEN Return(c, val) /\ UNCHANGED <<mine, shared>>
               ELSE /\ IF way = "scratch" THEN shared' = arg[c] * arg[c] /\ UNCHANGED mine
                       ELSE mine' = [mine EXCEPT ![c] = arg[c] * arg[c]] /\ UNCHANGED shared
                    /\ pc' = [pc EXCEPT ![c] = "second"] /\ UNCHANGED wrong
            /\ UNCHANGED <<way, reg, arg, key, val>>
Result(c) == ((IF way = "scratch" THEN shared ELSE mine[c]) + 2 * reg + 1) % 7
Second(c) == /\ pc[c] = "second"
             /\ IF way = "torn"
                THEN key' = KeyOf(arg[c]) /\ pc' = [pc EXCEPT ![c] = "third"] /\ UNCHANGED <<val, wrong>>
                ELSE Return(c, Result(c)) /\ (IF Cached THEN key' = KeyOf(arg[c]) /\ val' = Result(c) ELSE UNCHANGED <<key, val>>)
             /\ UNCHANGED <<way, reg, arg, mine, shared>>
Third(c) == /\ pc[c] = "third" /\ val' = Result(c) /\ Return(c, Result(c)) /\ UNCHANGED <<way, reg, arg, mine, shared, key>>
Register == /\ \A c \in Ctx : pc[c] = "idle" /\ reg' = 1 - reg /\ UNCHANGED <<way, pc, arg, mine, shared, key, val, wrong>>
Next == (\E c \in Ctx : Enter(c) \/ First(c) \/ Second(c) \/ Third(c)) \/ Register
Spec == Init /\ [][Next]_vars
Sound == way \in {"local", "once"} => ~wrong
\* once a wrong answer is out there is nothing more to see
Stop == ~wrong
Ix(w) == CHOOSE i \in 1..4 : <<"scratch", "partial", "stale", "torn">>[i] = w
Note == wrong => (way \in {"local", "once"} \/ TLCSet(Ix(way), TRUE))
Caught == \A i \in 1..4 : TLCGet(i) = TRUE
===============================================================================
