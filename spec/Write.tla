-------------------------------- MODULE Write --------------------------------
(* C08 (and the writing half of C13): a call is given items - path, type,          *)
(* elements, values - and says that it succeeded exactly when the target has        *)
(* acknowledged every one of them, each sent at most once, as it was given.          *)
(* An item that the library does not support (sup = FALSE) may be refused without    *)
(* having been sent; it still must not be said to have been written when it was not. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Props

OK == 0

VARIABLES
    call,       \* the running call: [on, items]
    sent,       \* items that have been sent
    acked,      \* those which the target says it has stored
    bad         \* something was refused or not answered

wvs == <<call, sent, acked, bad>>

NoCall == [on |-> FALSE, items |-> <<>>]
WInit == call = NoCall /\ sent = {} /\ acked = {} /\ bad = FALSE

Begin(items) == /\ ~call.on
                /\ call' = [on |-> TRUE, items |-> items]
                /\ sent' = {} /\ acked' = {} /\ bad' = FALSE

Equal(i, s) == i.path = s.path /\ i.type = s.type /\ i.n = s.n /\ i.val = s.val
SameWrite(i, s) == IF On("C08") THEN \/ Equal(i, s)
                                     \/ ~i.sup /\ i.path = s.path /\ s.st # OK
                                ELSE i.path = s.path

RECURSIVE Assign(_, _)
Assign(subs, free) ==
    IF subs = <<>> THEN <<>>
    ELSE LET I == {k \in free : SameWrite(call.items[k], subs[1])} IN
         IF I = {} THEN <<0>>
         ELSE LET k == CHOOSE i \in I : \A j \in I : i <= j IN <<k>> \o Assign(Tail(subs), free \ {k})

Range(q) == {q[k] : k \in 1..Len(q)}

\* a message with these requests; whole: there was no answer, or it said that nothing has been done
Put(subs, whole, len, max) ==
    /\ call.on
    /\ \E a \in {Assign(subs, (1..Len(call.items)) \ sent)} :
       /\ 0 \notin Range(a)
       /\ sent' = sent \cup Range(a)
       /\ acked' = acked \cup {a[k] : k \in {j \in 1..Len(a) : ~whole /\ subs[j].st = OK}}
    /\ On("C13") => Len(subs) <= 1 \/ len <= max
    /\ bad' = (bad \/ whole \/ \E k \in 1..Len(subs) : subs[k].st # OK)
    /\ UNCHANGED call

Return(ok) ==
    /\ call.on
    /\ On("C08") =>
          IF ok THEN acked = 1..Len(call.items) /\ ~bad
                ELSE bad \/ \E k \in 1..Len(call.items) : ~call.items[k].sup
    /\ On("C13") => (ok => sent = 1..Len(call.items))
    /\ call' = NoCall /\ sent' = {} /\ acked' = {} /\ bad' = FALSE
=============================================================================
