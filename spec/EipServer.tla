------------------------------ MODULE EipServer ------------------------------
(* S01-S04, S06, S07: the server.  Originators have sessions, on which they send      *)
(* requests; the server takes the requests of a session one after the other, does     *)
(* what each asks for to the store of the provider it is routed to, and answers.       *)
(* Connections are opened and closed by requests and named by later ones.              *)
(* A request that is not well-formed ("bad") has no effect; whatever happens after it   *)
(* on the session that sent it is that session's problem only.                          *)
EXTENDS TagStore, Props

VARIABLES
    sess,       \* session -> [up, handle, q, hurt]
    conns,      \* open connections: [key, ot, to, ser, ven, orig, path]
    store,      \* route path -> table of tags
    kind,       \* route path -> what is known of the provider there
    ident,      \* the identity that is configured; last the names that may stand for the product name where a string
                \* has room for 82 or 84 bytes only
    order       \* all names of tags that occur, in alphabetical order (that of their letters, or of their codes)

svars == <<sess, conns, store, kind, ident, order>>

None == "none"
MULTI == 10
EMBEDDED == 30
PARTIAL == 6
TOOLARGE == 17
Local == "1.0"          \* the provider that attribute requests without a route go to

Bit7(s) == IF s >= 128 THEN s ELSE s + 128

SInit == sess = <<>> /\ conns = {} /\ store = <<>> /\ kind = <<>> /\ ident = <<>> /\ order = <<>>

Setup(stores, orders, id) ==
    /\ DOMAIN store = {}
    /\ store' = [p \in {stores[i].path : i \in 1..Len(stores)} |->
                   LET s == CHOOSE x \in {stores[i] : i \in 1..Len(stores)} : x.path = p IN
                   [n \in {s.tags[j].n : j \in 1..Len(s.tags)} |->
                       LET g == CHOOSE x \in {s.tags[j] : j \in 1..Len(s.tags)} : x.n = n IN [t |-> g.t, arr |-> g.arr, v |-> g.v]]]
    /\ kind' = [p \in {stores[i].path : i \in 1..Len(stores)} |->
                   (CHOOSE x \in {stores[i] : i \in 1..Len(stores)} : x.path = p).kind]
    /\ \E i \in 1..Len(orders) : order' = orders[i]
    /\ ident' = id
    /\ UNCHANGED <<sess, conns>>

Dial(s) == /\ s \notin DOMAIN sess
           /\ sess' = [x \in DOMAIN sess \cup {s} |-> IF x = s THEN [up |-> TRUE, handle |-> "0", q |-> <<>>, hurt |-> FALSE] ELSE sess[x]]
           /\ UNCHANGED <<conns, store, kind, ident, order>>

Entry(r) == [r |-> r, done |-> FALSE, ok |-> "", sub |-> <<>>, to |-> ""]

Request(s, r) == /\ s \in DOMAIN sess
                 /\ sess' = IF sess[s].up THEN [sess EXCEPT ![s].q = Append(@, Entry(r))] ELSE sess
                 /\ UNCHANGED <<conns, store, kind, ident, order>>

----------------------------------------------------------------------------
(* the server handles a request *)

ByOT(ot) == {c \in conns : c.ot = ot}
Same(c, r) == c.ser = r.ser /\ c.ven = r.ven /\ c.orig = r.orig

\* where the operations of a request go: a path, or None when there is no such connection
Target(r) == CASE r.via = "c" -> IF ByOT(r.conn) = {} THEN None ELSE (CHOOSE c \in ByOT(r.conn) : TRUE).path
               [] r.via = "u" -> r.path
               [] OTHER -> Local

Answers(out, tags) == {[res |-> o, tags |-> tags] : o \in out}
Id(x) == [NoRes EXCEPT !.ok = "ok", !.id = x]
Listed(p) == p \in DOMAIN store /\ kind[p] # "nolist"

\* the tag that attribute instance n stands for
Nth(n) == LET s == Sorted(store[Local], order) IN s[n]
HasNth(n) == Local \in DOMAIN store /\ Listed(Local) /\ n >= 1 /\ n <= Len(Sorted(store[Local], order))

\* p: the path; T: its tags; via: how the request came
Op(p, T, via, op) ==
    CASE op.f \in {"read", "frag"} -> IF p \notin DOMAIN store THEN Answers({Err}, T)
                                      ELSE Answers(IF op.f = "frag" /\ via # "c" THEN {Err} \cup ReadRes(T, op) ELSE ReadRes(T, op), T)
      [] op.f = "write" -> IF p \notin DOMAIN store THEN Answers({Err}, T) ELSE WriteRes(T, op)
      [] op.f = "fwrite" -> Answers({Err}, T) \cup (IF p \in DOMAIN store THEN WriteRes(T, op) ELSE {})
      [] op.f = "sym" -> IF p \notin DOMAIN store THEN Answers({Err}, T)
                         ELSE IF via # "c" THEN Answers({Err, [NoRes EXCEPT !.ok = "ok", !.list = Symbols(T, order, op.start), !.part = TRUE]}, T)
                         ELSE IF ~Listed(p) THEN Answers({Err, Done}, T)
                         ELSE Answers({[NoRes EXCEPT !.ok = "ok", !.list = Symbols(T, order, op.start), !.part = TRUE]}, T)
      [] op.f = "gaa" -> IF op.inst # 1 THEN Answers({Err}, T)
                         ELSE IF op.cls = 1 THEN Answers({Id(SubSeq(ident, 1, 7))}, T)
                         ELSE IF op.cls = 100 THEN Answers({Id(<<ident[7]>>)}, T)
                         ELSE Answers({Err}, T)
      [] op.f = "gas" -> IF op.cls = 1 /\ op.inst = 1 THEN Answers(IF op.attr = 7 THEN {Id(<<ident[i]>>) : i \in 8..Len(ident)}
                                                                ELSE {IF op.attr \in 1..6 THEN Id(<<ident[op.attr]>>) ELSE Err}, T)
                         ELSE IF op.cls = 200 /\ op.attr = 1 /\ HasNth(op.inst)
                              THEN LET g == store[Local][Nth(op.inst)] IN
                                   Answers((IF g.arr THEN {Err} ELSE {}) \cup (IF via = "c" THEN {Err} ELSE {})
                                           \cup (IF Len(g.v) = 0 THEN {Err} ELSE {Val(g.t, <<g.v[1]>>)}), T)
                         ELSE Answers({Err}, T)
      [] op.f = "sas" -> IF op.cls = 200 /\ op.attr = 1 /\ HasNth(op.inst) /\ p = Local
                         THEN (IF via = "c" \/ store[Local][Nth(op.inst)].arr THEN Answers({Err}, T) ELSE {})
                              \cup WriteRes(T, [op EXCEPT !.tag = Nth(op.inst), !.idx = -1])
                         ELSE Answers({Err}, T)
      [] OTHER -> Answers({Err}, T)

Upd(s, i, e) == sess' = [sess EXCEPT ![s].q[i] = e]
Drop(s, i) == sess' = [sess EXCEPT ![s].q = RemoveAt(@, i)]

\* the next step on request i of session s
HandleService(s, i, e) ==
    LET r == e.r
        to == IF r.via = "c" /\ ByOT(r.conn) # {} THEN (CHOOSE c \in ByOT(r.conn) : TRUE).to ELSE ""
        p == Target(r)
        k == Len(e.sub) + 1
        last == k = Len(r.ops) IN
    IF p = None \/ (r.multi /\ p \notin DOMAIN store)
    THEN /\ Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "err", !.to = to])
         /\ UNCHANGED <<conns, store>>
    ELSE LET T == IF p \in DOMAIN store THEN store[p] ELSE <<>>
             S == Op(p, T, r.via, r.ops[k])
             \* what may be refused all the same: what needs no provider where there is none, and what is no read or write
             \* in a multiple service request
             F == p \notin DOMAIN store \/ (r.multi /\ r.ops[k].f \notin {"read", "write"}) IN
         \E x \in S \cup (IF F THEN Answers({Err}, T) ELSE {}) :
            /\ Upd(s, i, [e EXCEPT !.sub = Append(@, x.res), !.done = last, !.ok = IF last THEN "ok" ELSE "", !.to = to])
            /\ store' = IF p \in DOMAIN store THEN [store EXCEPT ![p] = x.tags] ELSE store
            /\ UNCHANGED conns

HandleOpen(s, i, e) ==
    LET r == e.r IN
    \/ \* accepted
       /\ conns' = conns \cup {[key |-> r.ctx, ot |-> "", to |-> r.to, ser |-> r.ser, ven |-> r.ven, orig |-> r.orig, path |-> r.path]}
       /\ Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "ok"])
       /\ UNCHANGED store
    \/ \* refused: there is nothing at the path, or the originator already has such a connection
       /\ r.path \notin DOMAIN store \/ \E c \in conns : Same(c, r)
       /\ Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "err"])
       /\ UNCHANGED <<conns, store>>

HandleClose(s, i, e) ==
    LET C == {c \in conns : Same(c, e.r)} IN
    /\ IF C = {} THEN /\ Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "err"])
                      /\ UNCHANGED conns
       ELSE \E c \in C : /\ conns' = conns \ {c}
                         /\ Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "ok"])
    /\ UNCHANGED store

Handle(s) ==
    \E i \in 1..Len(sess[s].q) :
       /\ ~sess[s].q[i].done
       /\ \A j \in 1..(i - 1) : sess[s].q[j].done
       /\ LET e == sess[s].q[i] IN
          CASE e.r.k = "svc" -> HandleService(s, i, e)
            [] e.r.k = "open" -> HandleOpen(s, i, e)
            [] e.r.k = "close" -> HandleClose(s, i, e)
            [] e.r.k = "nop" -> Drop(s, i) /\ UNCHANGED <<conns, store>>
            [] e.r.k = "unreg" -> /\ sess' = [sess EXCEPT ![s].q = RemoveAt(@, i), ![s].hurt = TRUE]
                                  /\ UNCHANGED <<conns, store>>
            [] e.r.k = "bad" -> /\ \/ sess' = [sess EXCEPT ![s].q = RemoveAt(@, i), ![s].hurt = TRUE]
                                   \/ sess' = [sess EXCEPT ![s].q[i] = [e EXCEPT !.done = TRUE, !.ok = "err"], ![s].hurt = TRUE]
                                /\ UNCHANGED <<conns, store>>
            [] OTHER -> Upd(s, i, [e EXCEPT !.done = TRUE, !.ok = "ok"]) /\ UNCHANGED <<conns, store>>
       /\ UNCHANGED <<kind, ident, order>>

----------------------------------------------------------------------------
(* the answers *)

IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* the result of one operation as it should be (x) and as it is in the answer (y)
GoodRes(x, y, op) ==
    /\ y.svc = Bit7(op.svc)
    /\ IF x.ok = "err" THEN y.st \notin {0, PARTIAL, -1}
       ELSE \/ /\ y.st = 0
               /\ y.t = x.t /\ y.v = x.v /\ y.id = x.id /\ y.list = x.list
            \/ /\ y.st = PARTIAL /\ x.part
               /\ y.t = x.t /\ IsPrefix2(y.v, x.v) /\ IsPrefix2(y.list, x.list)
               /\ Len(y.v) + Len(y.list) > 0

RECURSIVE Total(_)
Total(sub) == IF sub = <<>> THEN 0
              ELSE (IF sub[1].t = "" THEN 0 ELSE Len(sub[1].v) * Size[sub[1].t]) + 8 + Total(Tail(sub))

Refused(e, r) == e.encap # 0 \/ (e.st \notin {0, PARTIAL, -1} /\ e.svc = Bit7(r.svc) /\ e.res = <<>>)

\* 210: refused by the service that was to pass it on; r.svc = 0: what was asked for is not to be known
RefusedBad(e, r) == \/ e.encap # 0 \/ e.st = -1
                    \/ e.st # 0 /\ (r.svc = 0 \/ e.svc \in {Bit7(r.svc), 210})

GoodService(x, e) ==
    LET r == x.r IN
    IF x.ok = "err" THEN Refused(e, r)
    ELSE IF ~r.multi
    THEN IF x.sub[1].ok = "err" THEN Refused(e, r)
         ELSE /\ e.encap = 0 /\ e.svc = Bit7(r.svc) /\ Len(e.res) = 1
              /\ e.st \in {0, PARTIAL} /\ GoodRes(x.sub[1], e.res[1], r.ops[1])
    \* the parts together are more than fits into an answer
    ELSE IF Total(x.sub) > MaxReply /\ e.res = <<>> THEN e.st = TOOLARGE /\ Refused(e, r)
    ELSE /\ e.encap = 0 /\ e.svc = Bit7(MULTI) /\ Len(e.res) = Len(r.ops)
         /\ e.st \in {0, EMBEDDED}
         /\ (e.st = EMBEDDED) <=> \E k \in 1..Len(r.ops) : x.sub[k].ok = "err"
         /\ \A k \in 1..Len(r.ops) : GoodRes(x.sub[k], e.res[k], r.ops[k])

\* the connection whose id an answer carries is the one the request named
Named(x, e) == (x.r.via = "c" /\ e.encap = 0) => /\ e.seq = x.r.seq
                                                 /\ x.to = "" \/ e.conn = x.to

Reply(s, e) ==
    /\ s \in DOMAIN sess
    /\ Len(sess[s].q) > 0
    /\ \E x \in {sess[s].q[1]} :
       LET r == x.r IN
       /\ x.done
       /\ e.ctx = r.ctx /\ e.cmd = r.cmd
       /\ IF r.k = "reg" THEN e.handle # "0" ELSE e.handle = sess[s].handle
       /\ CASE r.k = "reg" -> e.encap = 0 /\ e.st = 0
            [] r.k = "ls" -> e.encap = 0 /\ e.st = 0
            [] r.k = "li" -> e.encap = 0 /\ e.st = 0 /\ e.id = SubSeq(ident, 1, 7)
            [] r.k = "unk" -> e.encap # 0
            [] r.k = "bad" -> RefusedBad(e, r)
            [] r.k = "svc" -> GoodService(x, e) /\ Named(x, e)
            [] r.k = "open" -> IF x.ok = "err" THEN Refused(e, r)
                               ELSE /\ e.encap = 0 /\ e.st = 0 /\ e.svc = Bit7(r.svc)
                                    /\ e.to = r.to /\ e.ser = r.ser /\ e.ven = r.ven /\ e.orig = r.orig
                                    /\ e.api = r.api      \* the packet intervals
                                    /\ e.ot # "0" /\ ByOT(e.ot) = {}
            [] r.k = "close" -> IF x.ok = "err" THEN Refused(e, r)
                                ELSE /\ e.encap = 0 /\ e.st = 0 /\ e.svc = Bit7(r.svc)
                                     /\ e.ser = r.ser /\ e.ven = r.ven /\ e.orig = r.orig
            [] OTHER -> FALSE
       /\ conns' = IF r.k = "open" THEN {IF c.key = r.ctx THEN [c EXCEPT !.ot = e.ot] ELSE c : c \in conns} ELSE conns
       /\ sess' = [sess EXCEPT ![s].q = Tail(@), ![s].handle = IF r.k = "reg" THEN e.handle ELSE @]
    /\ UNCHANGED <<store, kind, ident, order>>

\* the server ends a session, or does not answer any more, only after something was wrong on it
Ends(s) == /\ s \in DOMAIN sess
           /\ sess[s].hurt
           /\ sess' = [sess EXCEPT ![s].up = FALSE, ![s].q = <<>>]
           /\ UNCHANGED <<conns, store, kind, ident, order>>

\* what is in a provider in the end
Holds(p, tags) == /\ p \in DOMAIN store
                  /\ {tags[i] : i \in 1..Len(tags)} = {[n |-> x, t |-> store[p][x].t, arr |-> store[p][x].arr, v |-> store[p][x].v] : x \in DOMAIN store[p]}
                  /\ UNCHANGED svars
=============================================================================
