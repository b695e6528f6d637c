------------------------------- MODULE Replies -------------------------------
(* What an operation of the client makes of the replies to its requests           *)
(* (property C09).  An operation sends any number of requests; each reply may be  *)
(* refused, incomplete, lost or otherwise damaged.  The operation stores its      *)
(* result at the place the caller has given it only if every reply is good, and   *)
(* the client can be used afterwards.                                             *)
EXTENDS Integers, Sequences, TLC

VARIABLES op,       \* the operation in progress
          stray     \* bytes that belong to no reply may be waiting in the connection

rvars == <<op, stray>>

Idle == [on |-> FALSE]
RInit == op = Idle /\ stray = FALSE

READ == 76
FRAGREAD == 82
INSTATTRS == 85
PARTIAL == 6

\* was, want: what is at the caller's place before, and what a success leaves there
\* open: the caller gets the data of the reply as it is, of any length
Begin(name, was, want, open) ==
    /\ ~op.on
    /\ op' = [on |-> TRUE, name |-> name, was |-> was, want |-> want, open |-> open,
              broken |-> FALSE,      \* a reply that cannot be taken for a success
              doubt |-> FALSE,       \* a reply is damaged, but not so that it has to be noticed
              short |-> FALSE,       \* a reply lacks some of its data
              free |-> FALSE]        \* the damage may have changed the data themselves
    /\ UNCHANGED stray

\* a reply: optional: the operation has a way to go on without it; full, sent: the bytes it has and the bytes that arrive;
\* head: the bytes without which no reply can be understood; st, encap: its statuses; ends: FALSE if the connection
\* ends or stays silent before the reply is complete; data: something is
\* wrong that is, or can be mistaken for, the data; count: the reply is not one of as many parts as were asked for; fault: this is not what the target would have sent
More(r) == r.st = PARTIAL /\ r.svc \in {READ, FRAGREAD, INSTATTRS}
Refused(r) == r.encap # 0 \/ (r.st # 0 /\ ~More(r))
\* a part of a value, a page of a list and what the caller gets as it is can have any length
Short(r) == r.sent < (IF op.open \/ r.svc = INSTATTRS \/ More(r) THEN r.head ELSE r.full)
Bad(r) == Refused(r) \/ ~r.ends \/ r.sent < r.head \/ r.count

Reply(r) ==
    /\ op.on
    /\ op' = [op EXCEPT !.broken = @ \/ (Bad(r) /\ ~r.optional),
                        !.short = @ \/ (Short(r) /\ ~r.optional),
                        !.doubt = @ \/ r.fault,
                        !.free = @ \/ (r.fault /\ (r.data \/ More(r) \/ r.sent # r.full))]
    /\ stray' = (stray \/ r.stray)

\* the data that are missing can only be the unused rest of a string
Return(ok, val) ==
    /\ op.on
    /\ IF ok THEN ~op.broken /\ (IF op.short THEN op.want # "-" /\ val = op.want ELSE op.free \/ val = op.want)
             ELSE op.doubt /\ val = op.was
    /\ op' = Idle
    /\ UNCHANGED stray

\* afterwards something is read, on a new connection if the old one is gone; if there was more on the connection than
\* replies it may take a new connection (the second attempt)
Use(try, ok, val, want) ==
    /\ ~op.on
    /\ IF ok THEN val = want ELSE try = 1 /\ stray
    /\ stray' = (stray /\ ~ok)
    /\ UNCHANGED op
=============================================================================
