------------------------------ MODULE EipClient ------------------------------
(* C01 - C05: the session of a client with one target, seen from outside: calls *)
(* and returns on one side, network connections, requests and replies on the   *)
(* other.  cs is the history of network connections; only the last may be live. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Props

VARIABLES
    cfg,     \* [auto, size, ka, vendor, orig]: the client's configuration
    cs,      \* the network connections, in the order in which they were made
    calls,   \* the calls under way: id -> record
    fb,      \* a standard connection has been used because the large one was refused
    ka       \* keepalive: what may be polling

evars == <<cfg, cs, calls, fb, ka>>

STDMAX == 511
NoReq == [kind |-> "", key |-> ""]
NewConn == [st |-> "fresh",       \* fresh, reg, open, close (close answered or refused), refused, gone
            flt |-> "",           \* "", idle (hung up while nothing was outstanding), fault
            sess |-> "", ot |-> "", serial |-> "", vendor |-> "", orig |-> "",
            lref |-> FALSE,       \* the large open has been refused
            pend |-> NoReq,       \* the unanswered request
            seq |-> -1,           \* sequence count of the last connected request
            opened |-> FALSE, claimed |-> FALSE,
            seen |-> FALSE]             \* open, and the client is known to have taken note of it
NoKA == [on |-> "off", late |-> FALSE, n |-> 0, stray |-> 0, fail |-> FALSE, win |-> -1, wok |-> FALSE, w0 |-> "off"]

EInit(c) == cfg = c /\ cs = <<>> /\ calls = <<>> /\ fb = FALSE /\ ka = NoKA

Active == DOMAIN calls
\* operations that connect by themselves if they have to and may, and those that do not
Units == {"unit", "plain"}
N == Len(cs)
Cur == cs[N]

(* What the client's status can be: while a call that changes it is under way, or keepalive *)
(* has seen a failure and will disconnect, it is not known.                                 *)
Status ==
    IF ka.fail \/ (\E d \in Active : calls[d].chg) THEN "unsure"
    ELSE IF N = 0 THEN "disc"
    ELSE IF Cur.st = "gone" THEN "disc"
    ELSE IF Cur.st = "open" /\ Cur.flt # "fault" /\ (Cur.seen \/ Active = {}) THEN "conn"
    ELSE "unsure"

Excused(f) == [d \in DOMAIN f |-> [f[d] EXCEPT !.exc = TRUE]]
Without(f, c) == [d \in DOMAIN f \ {c} |-> f[d]]
\* a keepalive which was asked for a moment ago may begin only after it has been cancelled
KAOff(k) == [ka EXCEPT !.on = IF ka.late THEN "maybe" ELSE "off", !.stray = k, !.wok = FALSE]

-----------------------------------------------------------------------------
(* Calls and returns. *)

Call(c, op, keys, force) ==
    /\ c \notin Active
    /\ LET idle == N > 0 /\ Cur.flt = "idle" /\ Cur.st = "open"
           chg == op \in {"connect", "disconnect"} \/ (op \in Units /\ (Status # "conn" \/ idle))
           \* another operation, begun before the connection went away, may be reconnecting
           other == cfg.auto /\ \E d \in Active : calls[d].op = "unit"
           exc == \/ op = "connect" /\ (Status # "disc" \/ other)
                  \/ op = "disconnect" /\ Status # "conn"
                  \/ op = "unit" /\ Status = "disc" /\ other
                  \/ op = "plain" /\ (idle \/ Status # "conn")
                  \/ op = "unit" /\ (idle \/ ~(Status = "conn" \/ (Status = "disc" /\ cfg.auto)))
           r == [op |-> op, keys |-> keys, force |-> force, exc |-> exc, chg |-> chg,
                 n0 |-> N, s0 |-> Status, got |-> <<>>, bad |-> FALSE]
       IN calls' = (c :> r) @@ (IF chg THEN Excused(calls) ELSE calls)
    /\ ka' = IF op # "kastart" \/ ~cfg.ka THEN ka
             ELSE IF ka.on = "off" THEN [ka EXCEPT !.on = "starting", !.n = 0, !.late = TRUE]
             ELSE [ka EXCEPT !.late = TRUE]
    /\ UNCHANGED <<cfg, cs, fb>>

(* With nothing under way any more, a connection that is not in order has been given up. *)
Settled(f, s) ==
    IF DOMAIN f = {} /\ s # <<>>
    THEN IF s[Len(s)].flt = "fault" \/ s[Len(s)].st # "open" THEN [s EXCEPT ![Len(s)].st = "gone"]
         ELSE [s EXCEPT ![Len(s)].seen = TRUE]
    ELSE s

RetConnect(c, ok) ==
    /\ c \in Active /\ calls[c].op = "connect"
    /\ LET mine == {n \in (calls[c].n0 + 1)..N : cs[n].opened /\ ~cs[n].claimed}
           s == IF ok /\ mine # {} THEN [cs EXCEPT ![CHOOSE n \in mine : \A m \in mine : m >= n].claimed = TRUE,
                                              ![CHOOSE n \in mine : \A m \in mine : m >= n].seen = TRUE] ELSE cs
       IN /\ On("C01") => IF ok THEN mine # {} ELSE calls[c].exc
          /\ calls' = Without(calls, c)
          /\ cs' = Settled(calls', s)
    /\ UNCHANGED <<cfg, fb, ka>>

RetDisconnect(c, ok) ==
    /\ c \in Active /\ calls[c].op = "disconnect"
    /\ LET n0 == IF calls[c].n0 = 0 THEN 1 ELSE calls[c].n0
           did == \E n \in n0..N : cs[n].st = "close" \/ cs[n].flt # ""
           ended == ok /\ N > 0 /\ (Cur.st = "close" \/ Cur.flt # "")
           s == IF ended THEN [cs EXCEPT ![N].st = "gone"] ELSE cs
       IN /\ On("C01") => IF ok THEN did /\ (calls[c].s0 # "disc" \/ N > calls[c].n0) ELSE calls[c].exc
          /\ calls' = Without(calls, c)
          /\ cs' = Settled(calls', s)
          /\ ka' = IF ended THEN KAOff(1) ELSE ka
    /\ UNCHANGED <<cfg, fb>>

(* An operation succeeds with what its own request brought, and fails for a reason. *)
RetUnit(c, ok, isRead, val) ==
    /\ c \in Active /\ calls[c].op \in Units
    /\ On("C02") => (ok => \A k \in calls[c].keys : k \in DOMAIN calls[c].got /\ (isRead => calls[c].got[k] = val))
    /\ (On("C02") \/ On("C01")) => (~ok => calls[c].exc \/ calls[c].bad)
    /\ calls' = Without(calls, c)
    /\ cs' = Settled(calls', IF N > 0 /\ Cur.flt = "idle" /\ calls[c].n0 = N /\ ~ok
                             THEN [cs EXCEPT ![N].flt = "fault"] ELSE cs)
    /\ UNCHANGED <<cfg, fb, ka>>

RetKaStart(c) ==
    /\ c \in Active /\ calls[c].op = "kastart"
    /\ calls' = Without(calls, c)
    /\ ka' = IF ka.on # "starting" THEN ka
             ELSE [ka EXCEPT !.on = IF Status = "disc" THEN "maybe" ELSE "on", !.wok = FALSE]
    /\ UNCHANGED <<cfg, cs, fb>>

(* Some time passes: what was asked for has begun. *)
Slept == ka' = [ka EXCEPT !.late = FALSE] /\ UNCHANGED <<cfg, cs, calls, fb>>

RetKaCancel(c, ok) ==
    /\ c \in Active /\ calls[c].op = "kacancel"
    /\ On("C05") => (ok => calls[c].force \/ ~cfg.ka)
    /\ calls' = Without(calls, c)
    /\ ka' = IF ok THEN KAOff(1) ELSE ka
    /\ UNCHANGED <<cfg, cs, fb>>

-----------------------------------------------------------------------------
(* The target's side. *)

(* One live connection at a time, and only for a call that may make one. *)
Tcp(n) ==
    /\ n = N + 1
    /\ On("C01") => /\ N > 0 => (Cur.st \in {"gone", "refused", "close"} \/ Cur.flt # "")
                    /\ \E d \in Active : calls[d].op = "connect" \/ (calls[d].op = "unit" /\ cfg.auto)
    /\ cs' = Append(cs, NewConn)
    /\ UNCHANGED <<cfg, calls, fb, ka>>

Quiet(n) == cs[n].pend = NoReq /\ cs[n].flt = ""

Owns(d, key) == \/ key \in calls[d].keys
                \/ key = "ident" /\ calls[d].op = "unit"

Req(n, q) ==
    /\ n \in 1..N
    /\ On("C02") => Quiet(n)
    /\ On("C01") => n = N /\ cs[n].st # "gone"
    /\ LET c == cs[n] IN
       CASE q.kind = "reg" ->
              /\ On("C04") => c.st = "fresh"
              /\ cs' = [cs EXCEPT ![n].pend = [kind |-> "reg", key |-> ""]]
              /\ UNCHANGED <<fb, ka>>
         [] q.kind = "open" ->
              /\ On("C04") => /\ c.st = "reg" /\ q.session = c.sess
                              /\ IF q.large THEN cfg.size > STDMAX /\ ~c.lref /\ q.size = cfg.size
                                 ELSE /\ q.size <= STDMAX
                                      /\ cfg.size <= STDMAX => q.size = cfg.size
                                      /\ cfg.size > STDMAX => (c.lref \/ fb)
              /\ cs' = [cs EXCEPT ![n].pend = [kind |-> IF q.large THEN "lopen" ELSE "open", key |-> ""],
                                  ![n].serial = q.serial, ![n].vendor = q.vendor, ![n].orig = q.orig]
              /\ UNCHANGED <<fb, ka>>
         [] q.kind = "close" ->
              /\ On("C04") => /\ c.st = "open" /\ q.session = c.sess
                              /\ q.serial = c.serial /\ q.vendor = c.vendor /\ q.orig = c.orig
              /\ On("C01") => ka.fail \/ \E d \in Active : calls[d].op = "disconnect"
              /\ cs' = [cs EXCEPT ![n].pend = [kind |-> "close", key |-> ""]]
              /\ ka' = KAOff(1)
              /\ UNCHANGED fb
         [] q.kind = "unit" ->
              /\ On("C04") => c.st = "open" /\ q.session = c.sess /\ q.ot = c.ot
              /\ On("C03") => q.seq # c.seq
              /\ On("C02") => (q.key # "poll" => \E d \in Active : Owns(d, q.key))
              /\ (On("C05") /\ q.key = "poll") => (ka.on # "off" \/ ka.stray > 0)
              /\ cs' = [cs EXCEPT ![n].pend = [kind |-> "unit", key |-> q.key], ![n].seq = q.seq, ![n].seen = TRUE]
              /\ ka' = IF q.key # "poll" THEN ka
                       ELSE [ka EXCEPT !.n = @ + 1, !.win = IF @ < 0 THEN @ ELSE @ + 1,
                                       !.stray = IF ka.on = "off" /\ @ > 0 THEN @ - 1 ELSE @]
              /\ UNCHANGED fb
         [] OTHER -> FALSE
    /\ UNCHANGED <<cfg, calls>>

Rep(n, q) ==
    /\ n \in 1..N
    /\ LET c == cs[n]
           s == [cs EXCEPT ![n].pend = NoReq]
           ok == q.st = 0
       IN
       CASE q.kind = "reg" ->
              /\ cs' = IF ok THEN [s EXCEPT ![n].st = "reg", ![n].sess = q.session] ELSE [s EXCEPT ![n].st = "refused"]
              /\ calls' = IF ok THEN calls ELSE Excused(calls)
              /\ UNCHANGED <<fb, ka>>
         [] q.kind = "open" ->
              /\ cs' = IF ok THEN [s EXCEPT ![n].st = "open", ![n].ot = q.ot, ![n].opened = TRUE]
                       ELSE IF c.pend.kind = "lopen" THEN [s EXCEPT ![n].lref = TRUE]
                       ELSE [s EXCEPT ![n].st = "refused"]
              /\ calls' = IF ok \/ c.pend.kind = "lopen" THEN calls ELSE Excused(calls)
              /\ fb' = (fb \/ (~ok /\ c.pend.kind = "lopen"))
              /\ ka' = IF ok /\ cfg.ka THEN [ka EXCEPT !.on = "on", !.n = 0, !.wok = FALSE, !.fail = FALSE] ELSE ka
         [] q.kind = "close" ->
              /\ cs' = [s EXCEPT ![n].st = "close"]
              /\ calls' = Excused(calls)
              /\ UNCHANGED <<fb, ka>>
         [] q.kind = "unit" ->
              /\ cs' = s
              /\ calls' = [d \in DOMAIN calls |->
                             IF ~(q.key \in calls[d].keys)
                             THEN IF q.key = "poll" /\ ~ok /\ ka.n > 1 THEN [calls[d] EXCEPT !.exc = TRUE] ELSE calls[d]
                             ELSE IF ok THEN [calls[d] EXCEPT !.got = (q.key :> q.val) @@ @]
                             ELSE [calls[d] EXCEPT !.bad = TRUE]]
              /\ ka' = IF q.key # "poll" \/ ok THEN ka
                       ELSE IF ka.n <= 1 THEN KAOff(0)                  \* the first poll only takes stock
                       ELSE [KAOff(0) EXCEPT !.fail = TRUE]             \* a failed poll disconnects the client
              /\ UNCHANGED fb
         [] OTHER -> FALSE
    /\ UNCHANGED cfg

(* A request is not answered, or not in time, or not completely. *)
Fault(n) ==
    /\ n \in 1..N
    /\ cs' = [cs EXCEPT ![n].flt = "fault"]
    /\ calls' = Excused(calls)
    /\ ka' = IF cs[n].st = "open" THEN KAOff(1) ELSE ka
    /\ UNCHANGED <<cfg, fb>>

(* The target hangs up while no request is outstanding. *)
Drop(n) ==
    /\ n \in 1..N
    /\ cs' = IF cs[n].flt = "" THEN [cs EXCEPT ![n].flt = "idle"] ELSE cs
    /\ calls' = Excused(calls)
    /\ ka' = IF ka.on # "off" /\ cs[n].st = "open" THEN [KAOff(1) EXCEPT !.fail = TRUE] ELSE ka
    /\ UNCHANGED <<cfg, fb>>

-----------------------------------------------------------------------------
(* Observations. *)

Truth(conn) == On("C01") \/ On("C05") => Status = "unsure" \/ conn = (Status = "conn")

Probe(conn) == Truth(conn) /\ UNCHANGED evars

(* Everything is at rest: only the connection in use is open. *)
Quiesce(open, conn) ==
    /\ Truth(conn)
    /\ (On("C01") /\ Active = {}) => open \subseteq (IF conn THEN {N} ELSE {})
    /\ UNCHANGED evars

WinBegin == ka' = [ka EXCEPT !.win = 0, !.wok = TRUE, !.w0 = ka.on] /\ UNCHANGED <<cfg, cs, calls, fb>>
WinEnd(asked, most) ==
    /\ On("C05") => /\ (ka.wok /\ ka.w0 = "off") => ka.win <= 1
                    /\ (ka.wok /\ ka.w0 = "on") => /\ ka.win <= most + 2
                                                   /\ ka.win >= asked \div 3
    /\ ka' = [ka EXCEPT !.win = -1, !.wok = FALSE, !.late = FALSE]
    /\ UNCHANGED <<cfg, cs, calls, fb>>

(* Long enough for keepalive to have noticed a failure and disconnected. *)
Settle ==
    /\ cs' = IF ka.fail /\ N > 0 THEN [cs EXCEPT ![N].st = "gone"] ELSE cs
    /\ ka' = [ka EXCEPT !.fail = FALSE]
    /\ UNCHANGED <<cfg, calls, fb>>

-----------------------------------------------------------------------------
(* The properties, as invariants of everything above. *)
Live(n) == cs[n].st \in {"fresh", "reg", "open"} /\ cs[n].flt = ""
OneLive == \A m, n \in 1..N : Live(m) /\ Live(n) => m = n
OnlyLast == \A n \in 1..N : Live(n) => n = N
OneOutstanding == Cardinality({n \in 1..N : cs[n].pend # NoReq /\ cs[n].flt = ""}) <= 1
Inv == (On("C01") => OneLive /\ OnlyLast) /\ (On("C02") => OneOutstanding)
=============================================================================
