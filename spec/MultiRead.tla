------------------------------ MODULE MultiRead ------------------------------
(* C07 (and the reading half of C13): many tags in one call.  The call is given   *)
(* items: the path asked for, the number of elements, and what the target holds    *)
(* there (base, at), perhaps one bit of it.  The client may cut them into as many   *)
(* messages as it likes; each item is asked for exactly once.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Props

OK == 0

VARIABLES
    vals,       \* tag -> its elements
    bits,       \* tag -> for every element its bits
    call,       \* the running call: [on, items, ordered]
    asked,      \* which items have been asked for
    bad         \* something of it failed

mvs == <<vals, bits, call, asked, bad>>

NoCall == [on |-> FALSE, items |-> <<>>, ordered |-> FALSE]
MInit(v, b) == vals = v /\ bits = b /\ call = NoCall /\ asked = {} /\ bad = FALSE

Begin(items, ordered) ==
    /\ ~call.on
    /\ call' = [on |-> TRUE, items |-> items, ordered |-> ordered]
    /\ asked' = {} /\ bad' = FALSE
    /\ UNCHANGED <<vals, bits>>

\* which of the free items the requests of a message are about (0: none); alike items are interchangeable
SameRead(i, s) == i.path = s.path /\ i.n = s.n
RECURSIVE Assign(_, _)
Assign(subs, free) ==
    IF subs = <<>> THEN <<>>
    ELSE LET I == {k \in free : SameRead(call.items[k], subs[1])} IN
         IF I = {} THEN <<0>>
         ELSE LET k == CHOOSE i \in I : \A j \in I : i <= j IN <<k>> \o Assign(Tail(subs), free \ {k})

Range(q) == {q[k] : k \in 1..Len(q)}
Free == (1..Len(call.items)) \ asked

\* one of the alike items has no type of its own: the caller cannot know how long the answer is
MayBeOpen(s) == \E i \in 1..Len(call.items) : SameRead(call.items[i], s) /\ call.items[i].open

\* a message with these requests; whole: it failed altogether; len and rlen: its size and that of its reply
Ask(subs, whole, len, rlen, max) ==
    /\ call.on
    /\ \E a \in {Assign(subs, Free)} :
       /\ 0 \notin Range(a)                                             \* it is something that was wanted, and not again
       /\ asked' = asked \cup Range(a)
       /\ On("C13") => /\ call.ordered => \A k \in 1..Len(a) : a[k] = Cardinality(asked) + k
                       /\ \/ Len(subs) <= 1
                          \/ len <= max /\ (rlen <= max \/ \E k \in 1..Len(subs) : MayBeOpen(subs[k]))
    /\ bad' = (bad \/ whole \/ \E k \in 1..Len(subs) : subs[k].st # OK)
    /\ UNCHANGED <<vals, bits, call>>

Want(i) == IF i.bit >= 0 THEN <<bits[i.base][i.at + 1][i.bit + 1]>> ELSE SubSeq(vals[i.base], i.at + 1, i.at + i.n)

Return(ok, results) ==
    /\ call.on
    /\ On("C07") =>
          IF ok THEN /\ asked = 1..Len(call.items) /\ ~bad
                     /\ results = [k \in 1..Len(call.items) |-> Want(call.items[k])]
                ELSE bad
    /\ On("C13") => (ok => asked = 1..Len(call.items))
    /\ call' = NoCall /\ asked' = {} /\ bad' = FALSE
    /\ UNCHANGED <<vals, bits>>
=============================================================================
