------------------------------ MODULE TagStore ------------------------------
(* S03: what one read or write does to the table of tags that the server's map     *)
(* provider keeps.  A tag is a kind of value, whether it is an array, and its       *)
(* elements; values are compared as text.  Every operation gives the set of the     *)
(* results that are allowed; ok = "err" stands for a refusal.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoRes == [ok |-> "err", t |-> "", v |-> <<>>, part |-> FALSE, id |-> <<>>, list |-> <<>>]
Err == NoRes
Done == [NoRes EXCEPT !.ok = "ok"]
Val(ty, v) == [NoRes EXCEPT !.ok = "ok", !.t = ty, !.v = v]
Size == [BOOL |-> 1, BYTE |-> 1, SINT |-> 1, INT |-> 2, UINT |-> 2, DINT |-> 4, UDINT |-> 4, LINT |-> 8, LWORD |-> 8,
         REAL |-> 4, LREAL |-> 8, STRING |-> 88]
MaxReply == 65400

Known(T, name) == name \in DOMAIN T
Keep(T, S) == {[res |-> r, tags |-> T] : r \in S}

\* the elements that a request for n elements from index idx (-1: none given) asks for
ReadRes(T, op) ==
    IF ~Known(T, op.tag) THEN {Err}
    ELSE LET g == T[op.tag] IN
         IF ~g.arr
         THEN IF op.idx >= 0 THEN {Err}
              ELSE IF op.n = 1 /\ op.eo = 0 THEN {Val(g.t, g.v)} ELSE {Err, Val(g.t, g.v)}
         ELSE LET a == IF op.idx >= 0 THEN op.idx ELSE 0
                  n == Len(g.v) IN
              IF op.n = 0 THEN {Err, Val(g.t, <<>>)}
              ELSE IF a + op.n > n THEN {Err}
              ELSE IF op.eo > op.n THEN {Err}
              ELSE IF op.eo = op.n THEN {Err, Val(g.t, <<>>)}
              ELSE LET w == SubSeq(g.v, a + op.eo + 1, a + op.n) IN
                   IF Len(w) * Size[g.t] > MaxReply
                   THEN IF op.f = "frag" THEN {Err, [Val(g.t, w) EXCEPT !.part = TRUE]} ELSE {Err}
                   ELSE {IF op.f = "frag" THEN [Val(g.t, w) EXCEPT !.part = TRUE] ELSE Val(g.t, w)}

\* the values given, as values of another kind, where that can hold them exactly
AsKind(op, t) == IF op.t = t THEN {op.v} ELSE {op.as[i].v : i \in {j \in 1..Len(op.as) : op.as[j].t = t}}

Put(T, name, g) == [x \in DOMAIN T \cup {name} |-> IF x = name THEN g ELSE T[x]]
Splice(old, a, new) == [i \in 1..Len(old) |-> IF i > a /\ i <= a + Len(new) THEN new[i - a] ELSE old[i]]

WriteRes(T, op) ==
    IF Len(op.v) = 0 THEN Keep(T, {Err, Done})
    ELSE IF ~Known(T, op.tag)
    THEN IF op.idx >= 0 THEN Keep(T, {Err})
         ELSE {[res |-> Done, tags |-> Put(T, op.tag, [t |-> op.t, arr |-> Len(op.v) > 1, v |-> op.v])]}
    ELSE LET g == T[op.tag] IN
         IF ~g.arr
         THEN IF op.idx >= 0 THEN Keep(T, {Err})
              ELSE IF Len(op.v) = 1 /\ op.t = g.t THEN {[res |-> Done, tags |-> Put(T, op.tag, [g EXCEPT !.v = op.v])]}
              \* another kind of value: refused, taken as it is, or converted when that loses nothing
              ELSE Keep(T, {Err})
                   \cup {[res |-> Done, tags |-> Put(T, op.tag, [t |-> op.t, arr |-> Len(op.v) > 1, v |-> op.v])]}
                   \cup {[res |-> Done, tags |-> Put(T, op.tag, [g EXCEPT !.v = w])] : w \in {u \in AsKind(op, g.t) : Len(u) = 1}}
         ELSE LET a == IF op.idx >= 0 THEN op.idx ELSE 0
                  n == Len(op.v)
                  fits == {[res |-> Done, tags |-> Put(T, op.tag, [g EXCEPT !.v = Splice(g.v, a, w)])] : w \in AsKind(op, g.t)} IN
              IF a + n <= Len(g.v)
              THEN IF op.t = g.t THEN fits ELSE Keep(T, {Err}) \cup fits
              ELSE IF op.idx >= 0 \/ Len(g.v) = 0 THEN Keep(T, {Err})
              \* more elements than the array has: refused, or the array becomes what is written
              ELSE Keep(T, {Err}) \cup {[res |-> Done, tags |-> Put(T, op.tag, [g EXCEPT !.v = w])] : w \in AsKind(op, g.t)}

\* S06: the tags in alphabetical order; order is the alphabet of names that can occur
Sorted(T, order) == SelectSeq(order, LAMBDA x : x \in DOMAIN T)
Symbols(T, order, start) ==
    LET s == Sorted(T, order)
        all == [i \in 1..Len(s) |-> [i |-> i, n |-> s[i], t |-> T[s[i]].t]]
        a == IF start < 1 THEN 1 ELSE start IN
    SubSeq(all, a, Len(all))
=============================================================================
