------------------------------ MODULE RoundTrip ------------------------------
(* E01: several clients of the library, some of them shared by goroutines, and the   *)
(* library's server, looked at from outside: calls, the parts (tag, first element,   *)
(* number of elements) each call is about, and what it returns.                       *)
(*                                                                                    *)
(* The table changes only when a part of a write takes effect, at one moment between  *)
(* the call and its return, and all its elements at once.  A part of a read returns   *)
(* what the table held at one moment between the call and the return; the elements    *)
(* of a part too large for one reply may come from different moments.                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    table,      \* tag -> its elements
    calls       \* calls that have not returned: id -> [write, parts, seen, done]

rtvars == <<table, calls>>
RTInit(tb) == table = tb /\ calls = <<>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Known(tb, n) == n \in DOMAIN tb

\* p.at = -1: no index was given
From(p) == IF p.at < 0 THEN 0 ELSE p.at
There(tb, p) == Known(tb, p.tag) /\ p.n >= 1 /\ From(p) + p.n <= Len(tb[p.tag])
Now(tb, p) == SubSeq(tb[p.tag], From(p) + 1, From(p) + p.n)
\* what a part of a read may return: values of the part as a whole, or of each element
Look(tb, p) == IF ~There(tb, p) THEN {}
               ELSE IF p.whole THEN {Now(tb, p)} ELSE {<<i, Now(tb, p)[i]>> : i \in 1..p.n}

Call(id, write, parts) ==
    /\ id \notin DOMAIN calls
    /\ calls' = Put(calls, id, [write |-> write, parts |-> parts, done |-> {},
                                seen |-> IF write THEN <<>> ELSE [i \in DOMAIN parts |-> Look(table, parts[i])]])
    /\ UNCHANGED table

\* the table after a part of a write, and whether there is one: the elements are replaced; what is written without an
\* index beyond the end of an array, or to a tag that is not there, becomes the tag
CanStore(tb, p) == Len(p.v) >= 1 /\ IF Known(tb, p.tag) /\ From(p) + Len(p.v) <= Len(tb[p.tag]) THEN TRUE ELSE p.at < 0
Store(tb, p) ==
    IF Known(tb, p.tag) /\ From(p) + Len(p.v) <= Len(tb[p.tag])
    THEN [tb EXCEPT ![p.tag] = [i \in 1..Len(@) |-> IF i > From(p) /\ i <= From(p) + Len(p.v) THEN p.v[i - From(p)] ELSE @[i]]]
    ELSE Put(tb, p.tag, p.v)

\* the other calls see the new table
Watched(tb, cs) == [id \in DOMAIN cs |-> IF cs[id].write THEN cs[id]
                                         ELSE [cs[id] EXCEPT !.seen = [i \in DOMAIN cs[id].parts |-> @[i] \cup Look(tb, cs[id].parts[i])]]]

Effect(id, i) ==
    /\ id \in DOMAIN calls /\ calls[id].write
    /\ i \in DOMAIN calls[id].parts \ calls[id].done
    /\ CanStore(table, calls[id].parts[i])
    /\ table' = Store(table, calls[id].parts[i])
    /\ calls' = Watched(table', [calls EXCEPT ![id].done = @ \cup {i}])

RightPart(p, seen, v) == /\ Len(v) = p.n
                         /\ IF p.whole THEN v \in seen ELSE \A i \in 1..p.n : <<i, v[i]>> \in seen

Return(id, ok, must, vals) ==
    /\ id \in DOMAIN calls
    /\ LET c == calls[id] IN
       /\ ok \/ ~must
       /\ ok /\ c.write => c.done = DOMAIN c.parts
       /\ ok /\ ~c.write => /\ Len(vals) = Len(c.parts)
                            /\ \A i \in DOMAIN c.parts : RightPart(c.parts[i], c.seen[i], vals[i])
    /\ calls' = Del(calls, id)
    /\ UNCHANGED table

Holds(tb) == calls = <<>> /\ table = tb
==============================================================================
