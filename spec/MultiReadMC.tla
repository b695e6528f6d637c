---------------------------- MODULE MultiReadMC ----------------------------
(* A client which cuts the list of tags wherever it likes until each part fits    *)
(* into a message, and puts the results together again; over all sizes of the      *)
(* items and all decisions of the target.  With Join = "last-first" it puts the     *)
(* parts together in the wrong order (TLC finds it), with Fit = FALSE it forgets    *)
(* the limit.                                                                        *)
EXTENDS MultiRead, Json
CONSTANTS Items, Limit, Join, Fit, Gen
VARIABLES size, todo, got, log, n

vars == <<mvs, size, todo, got, log, n>>
Tags == {"a", "b"}
Val(t) == <<t>>
Item(t) == [path |-> t, base |-> t, at |-> 0, n |-> 1, bit |-> -1, open |-> FALSE]

MCInit == /\ MInit([t \in Tags |-> Val(t)], [t \in Tags |-> <<>>])
          /\ size \in [Tags -> 1..2] /\ todo = <<>> /\ got = <<>> /\ log = <<>> /\ n = 0

DoBegin == /\ n = 0 /\ n' = 1
           /\ \E k \in 0..Items : \E q \in [1..k -> Tags] :
                /\ Begin([i \in 1..k |-> Item(q[i])], TRUE)
                /\ todo' = IF k = 0 THEN <<>> ELSE <<<<1, k>>>>
           /\ got' = <<>> /\ UNCHANGED <<size, log>>

RECURSIVE Sum(_, _)
Sum(lo, hi) == IF lo > hi THEN 0 ELSE size[call.items[lo].path] + Sum(lo + 1, hi)
Fits(s) == Sum(s[1], s[2]) <= Limit

Split == /\ call.on /\ todo # <<>> /\ Fit /\ ~Fits(todo[1]) /\ todo[1][1] < todo[1][2]
         /\ \E c \in todo[1][1]..todo[1][2] - 1 :
               todo' = <<<<todo[1][1], c>>, <<c + 1, todo[1][2]>>>> \o Tail(todo)
         /\ UNCHANGED <<mvs, size, got, log, n>>

Send == /\ call.on /\ todo # <<>> /\ (~Fit \/ Fits(todo[1]) \/ todo[1][1] = todo[1][2]) /\ ~bad
        /\ \E whole \in BOOLEAN, st \in [todo[1][1]..todo[1][2] -> {OK, 5}] :
              /\ whole => \A k \in DOMAIN st : st[k] = OK
              /\ LET c == todo[1]
                     s == [k \in 1..c[2] - c[1] + 1 |-> [path |-> call.items[c[1] + k - 1].path, n |-> 1, st |-> st[c[1] + k - 1]]]
                     vs == [k \in 1..Len(s) |-> Val(s[k].path)]
                 IN /\ Ask(s, whole, Sum(c[1], c[2]), Sum(c[1], c[2]), Limit)
                    /\ got' = IF Join = "last-first" THEN vs \o got ELSE got \o vs
                    /\ log' = IF Gen THEN Append(log, [whole |-> whole, sts |-> [k \in 1..Len(s) |-> s[k].st]]) ELSE log
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<size, n>>

\* the call comes back, whatever the result is
Done == (todo = <<>> \/ bad)
DoReturn == /\ call.on /\ Done
            /\ Return(~bad, IF bad THEN <<>> ELSE got)
            /\ (Gen => PrintT("SCN " \o ToJson([items |-> call.items, size |-> size, log |-> log])))
            /\ UNCHANGED <<size, todo, got, log, n>>

MCNext == DoBegin \/ Split \/ Send \/ DoReturn
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

Returns == call.on ~> ~call.on
\* the client never gets into a state in which it cannot go on: what it asked for and what it made of it is right
CanGoOn == call.on => ENABLED MCNext
Emit == TRUE
=============================================================================
