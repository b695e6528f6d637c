------------------------------ MODULE Listing ------------------------------
(* C10: listing the tags of a controller.  The target holds one list of symbols *)
(* per scope (the controller's is "", the others are programs), ordered by their *)
(* instance numbers.  A request asks for the entries of a scope from an instance *)
(* on; the target sends as many as it likes and says whether there are more.     *)
(* The programs are named by the program object, or, where the target does not   *)
(* have that, by entries of the controller's list.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

OK == 0
PARTIAL == 6
LOST == -1             \* instead of a status: the connection is closed

VARIABLES
    lists,      \* scope -> sequence of [inst, key, id, hidden, prog], by increasing inst; key: the full name
    byObject,   \* the programs the program object names
    api,        \* "none", "all" (every tag), "sub" (one program's tags), "progs" (the programs)
    scope,      \* of "sub"
    from,       \* first instance wanted
    page,       \* scope -> [asked: last start asked for, got: entries delivered, st: "new", "more", "stuck", "whole"]
    seen,       \* scope -> instances delivered (history)
    progs,      \* the program object: "unasked", "named", "refused", "lost"
    bad,        \* some page failed
    res,        \* "none", "ok", "err"
    knows,      \* what the client knows from this and earlier listings: key and id
    sure        \* FALSE: a failed listing may have left it with anything

lvars == <<lists, byObject, api, scope, from, page, seen, progs, bad, res, knows, sure>>

Scopes == DOMAIN lists
From(s) == IF api = "sub" \/ s = "" THEN from ELSE 1
Before(s, i) == Cardinality({k \in 1..Len(lists[s]) : lists[s][k].inst < i})
Fresh == [s \in Scopes |-> [asked |-> 0, got |-> 0, st |-> "new"]]

LInit(ls, po) ==
    /\ lists = ls /\ byObject = po
    /\ api = "none" /\ scope = "" /\ from = 1
    /\ page = [s \in DOMAIN ls |-> [asked |-> 0, got |-> 0, st |-> "new"]]
    /\ seen = [s \in DOMAIN ls |-> {}]
    /\ progs = "unasked" /\ bad = FALSE /\ res = "none"
    /\ knows = {} /\ sure = TRUE

\* fresh: by a new client
Call(a, s, f, fresh) ==
    /\ api = "none" \/ res # "none"
    /\ api' = a /\ scope' = s /\ from' = IF f < 1 THEN 1 ELSE f
    /\ page' = Fresh
    /\ seen' = [x \in Scopes |-> {}]
    /\ progs' = "unasked" /\ bad' = FALSE /\ res' = "none"
    /\ knows' = (IF fresh THEN {} ELSE knows) /\ sure' = (fresh \/ sure)
    /\ UNCHANGED <<lists, byObject>>

\* between two calls the target's programs and tags change
Change(ls, po) ==
    /\ api = "none" \/ res # "none"
    /\ lists' = ls /\ byObject' = po
    /\ api' = "none" /\ res' = "none"
    /\ page' = [s \in DOMAIN ls |-> [asked |-> 0, got |-> 0, st |-> "new"]]
    /\ seen' = [s \in DOMAIN ls |-> {}]
    /\ UNCHANGED <<scope, from, progs, bad, knows, sure>>

\* the program object answers (st = OK: with all names)
Programs(st) ==
    /\ res = "none"
    /\ api \in {"all", "progs"}
    /\ api = "all" => from = 1
    /\ progs = "unasked"
    /\ progs' = IF st = OK THEN "named" ELSE IF st = LOST THEN "lost" ELSE "refused"
    /\ UNCHANGED <<lists, byObject, api, scope, from, page, seen, bad, res, knows, sure>>

\* programs named by the delivered part of the controller's list
Named == {lists[""][k].prog : k \in {j \in 1..Len(lists[""]) : lists[""][j].prog # "" /\ lists[""][j].inst \in seen[""]}}

\* the scopes whose tags the call asks for
Need == CASE api = "sub" -> {scope}
          [] api = "all" -> {""} \cup (IF from > 1 THEN {} ELSE IF progs = "named" THEN byObject ELSE Named)
          [] OTHER -> {}

\* one page: the client asks for entries of s from instance start on, the target sends n of them, with status st
Page(s, start, n, st) ==
    /\ res = "none"
    /\ s \in Scopes
    /\ bad \/ s \in Need
    /\ ~bad =>
        /\ api = "all" /\ from = 1 => progs # "unasked"
        /\ page[s].st # "whole"
        /\ start > page[s].asked                                             \* progress
        /\ Before(s, start) <= IF page[s].st = "new" THEN Before(s, From(s)) ELSE page[s].got     \* no tag is passed over
    /\ n >= 0 /\ Before(s, start) + n <= Len(lists[s])
    /\ LET k == Before(s, start) IN
       IF bad \/ ~(st \in {OK, PARTIAL})
       THEN bad' = TRUE /\ UNCHANGED <<page, seen>>
       ELSE /\ page' = [page EXCEPT ![s] = [asked |-> start,
                                            got |-> IF k + n > @.got THEN k + n ELSE @.got,
                                            st |-> IF st = OK THEN "whole" ELSE IF n = 0 THEN "stuck" ELSE "more"]]
            /\ seen' = [seen EXCEPT ![s] = @ \cup {lists[s][j].inst : j \in (k + 1)..(k + n)}]
            /\ UNCHANGED bad
    /\ UNCHANGED <<lists, byObject, api, scope, from, progs, res, knows, sure>>

Visible(s) == SelectSeq(lists[s], LAMBDA e : e.inst >= From(s) /\ ~e.hidden /\ e.prog = "")
Pairs(q) == {[key |-> q[k].key, id |-> q[k].id] : k \in 1..Len(q)}

\* what the call finds, and what the client knows with that: a full listing replaces what it knew
Found == UNION {Pairs(Visible(s)) : s \in Need}
Full == api = "all" /\ from = 1
With == IF Full THEN Found ELSE {p \in knows : \A f \in Found : f.key # p.key} \cup Found
Programs2 == IF api = "progs" THEN byObject ELSE Need \ {""}

ReturnOk ==
    /\ api # "none" /\ res = "none"
    /\ ~bad
    /\ \A s \in Need : page[s].st = "whole"
    /\ api = "progs" => progs = "named"
    /\ Full => progs \in {"named", "refused"}
    /\ res' = "ok"
    /\ knows' = With /\ sure' = (sure \/ Full)
    /\ UNCHANGED <<lists, byObject, api, scope, from, page, seen, progs, bad>>

ReturnErr ==
    /\ api # "none" /\ res = "none"
    /\ \/ bad
       \/ \E s \in Scopes : page[s].st = "stuck"
       \/ progs = "lost"
       \/ api = "progs" /\ progs = "refused"
    /\ res' = "err"
    /\ sure' = FALSE
    /\ UNCHANGED knows
    /\ UNCHANGED <<lists, byObject, api, scope, from, page, seen, progs, bad>>

\* several calls at the same time, none of which the target refuses, full listings among them; afterwards the client
\* knows what the target publishes, unless (sloppy) one of the listings was given up
Crowd(sloppy) ==
    /\ api = "none" \/ res # "none"
    /\ api' = "none" /\ res' = "none"
    /\ knows' = (IF sloppy THEN {} ELSE UNION {Pairs(SelectSeq(lists[s], LAMBDA e : ~e.hidden /\ e.prog = "")) : s \in Scopes})
    /\ sure' = ~sloppy
    /\ UNCHANGED <<lists, byObject, scope, from, page, seen, progs, bad>>

-----------------------------------------------------------------------------
\* a listing that succeeds has been sent every tag
Whole == res = "ok" => \A s \in Need : \A k \in 1..Len(lists[s]) : lists[s][k].inst >= From(s) => lists[s][k].inst \in seen[s]
\* what has been counted as delivered has been delivered
Counted == \A s \in Scopes : \A k \in 1..page[s].got : lists[s][k].inst >= From(s) => lists[s][k].inst \in seen[s]
\* a failed page never ends in success
FailedIsError == bad => res # "ok"
Inv == Whole /\ Counted /\ FailedIsError
=============================================================================
