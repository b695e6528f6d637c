------------------------------- MODULE WriteMC -------------------------------
(* A client which fills messages with the items up to the limit and stops at the   *)
(* first failure, over all sizes and decisions of the target.  With Check =         *)
(* "last" it looks only at the last message's statuses, with Check = "first" only   *)
(* at the first item's of each message: TLC finds both.                               *)
EXTENDS Write, Json
CONSTANTS Items, Limit, Check, Gen
VARIABLES size, next, fine, log, n

vars == <<wvs, size, next, fine, log, n>>
Tags == {"a", "b"}
Item(t) == [path |-> t, type |-> "DINT", n |-> 1, val |-> <<t>>, sup |-> TRUE]

MCInit == WInit /\ size \in [Tags -> 1..2] /\ next = 1 /\ fine = TRUE /\ log = <<>> /\ n = 0

DoBegin == /\ n = 0 /\ n' = 1
           /\ \E k \in 0..Items : \E q \in [1..k -> Tags] : Begin([i \in 1..k |-> Item(q[i])])
           /\ next' = 1 /\ fine' = TRUE /\ UNCHANGED <<size, log>>

RECURSIVE Sum(_, _)
Sum(lo, hi) == IF lo > hi THEN 0 ELSE size[call.items[lo].path] + Sum(lo + 1, hi)
K == Len(call.items)
Upto == CHOOSE h \in next..K : /\ h = next \/ Sum(next, h) <= Limit
                               /\ h = K \/ Sum(next, h + 1) > Limit

Verdict(whole, sts) == CASE Check = "all" -> ~whole /\ \A k \in 1..Len(sts) : sts[k] = OK
                         [] Check = "first" -> ~whole /\ sts[1] = OK
                         [] Check = "last" -> ~whole /\ \A k \in 1..Len(sts) : sts[k] = OK

Send == /\ call.on /\ next <= K /\ (fine \/ Check = "last")
        /\ \E whole \in BOOLEAN, sts \in [1..Upto - next + 1 -> {OK, 5}] :
              /\ whole => \A k \in DOMAIN sts : sts[k] = OK
              /\ LET s == [k \in 1..Upto - next + 1 |-> [path |-> call.items[next + k - 1].path, type |-> "DINT", n |-> 1,
                                                         val |-> <<call.items[next + k - 1].path>>, st |-> sts[k]]]
                 IN Put(s, whole, Sum(next, Upto), Limit)
              /\ fine' = Verdict(whole, sts)
              /\ log' = IF Gen THEN Append(log, [whole |-> whole, sts |-> sts]) ELSE log
        /\ next' = Upto + 1
        /\ UNCHANGED <<size, n>>

DoReturn == /\ call.on /\ (next > K \/ (~fine /\ Check # "last"))
            /\ Return(fine)
            /\ (Gen => PrintT("SCN " \o ToJson([items |-> call.items, size |-> size, log |-> log])))
            /\ UNCHANGED <<size, next, fine, log, n>>

MCNext == DoBegin \/ Send \/ DoReturn
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Returns == call.on ~> ~call.on
CanGoOn == call.on => ENABLED MCNext
Emit == TRUE
=============================================================================
