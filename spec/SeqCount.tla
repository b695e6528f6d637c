------------------------------ MODULE SeqCount ------------------------------
(* C03: the sequence counts of connected requests.  Every client takes the     *)
(* count of a request before it sends it; requests of different callers may be *)
(* sent in another order than that in which their counts were taken.  A target *)
(* answers a request whose count repeats that of the one before it on the same *)
(* connection with the earlier reply.                                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE last          \* connection -> count of the last request on it (-1: none yet)

SInit == last = <<>>

Open(c) == /\ c \notin DOMAIN last
           /\ last' = [d \in DOMAIN last \cup {c} |-> IF d = c THEN -1 ELSE last[d]]

\* requests with these counts, one after the other
Sent(c, counts) ==
    /\ c \in DOMAIN last
    /\ counts # <<>>
    /\ counts[1] # last[c]
    /\ \A i \in 1..(Len(counts) - 1) : counts[i] # counts[i + 1]
    /\ last' = [last EXCEPT ![c] = counts[Len(counts)]]
=============================================================================
