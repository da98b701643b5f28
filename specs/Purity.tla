-------------------------------- MODULE Purity --------------------------------
(* Independence of calls.  A library call is a function of its arguments and   *)
(* of the registries it is documented to read (the GLONASS channel map); it    *)
(* keeps nothing from one call to the next and shares no storage with calls    *)
(* that run at the same time.                                                  *)
EXTENDS Integers, TLC
\* the book of answers: what a call answers when it is the first of its process
NoAnswers == <<>>
Learn(book, key, answer) == (key :> answer) @@ book
Answer(book, key, answer) == key \in DOMAIN book /\ book[key] = answer
===============================================================================
