------------------------------ MODULE EipServerMC ------------------------------
(* A server with state of its own - a table of connections, tables of tags, a worker  *)
(* per session - against EipServer: it may answer only what EipServer allows.          *)
(* Careless is one way in which a server does not keep to it; TLC finds each.          *)
EXTENDS EipServer, Json
CONSTANTS MaxReq, Careless, Gen
VARIABLES
    iconns,     \* connections as the server has them: [ot, to, own, path]
    istore,     \* tables of tags as the server has them: path -> value of each element of the array "a"
    work,       \* session -> what its worker is at: [at, out, left]
    last,       \* the path of the connection that was opened last
    used,       \* the ids of connections that were ever given out
    told,       \* those of them that an originator was told
    sent,       \* session -> number of requests sent
    log,        \* session -> contexts of the answers received
    seen,       \* what was read: [path, v]
    hist        \* the requests, when scenarios are generated

ivars == <<iconns, istore, work, last, used, told, sent, log, seen, hist>>
Sess == {1, 2}
Paths == {"1.0", "2.0"}
Home(s) == IF s = 1 THEN "1.0" ELSE "2.0"

Blank == [k |-> "svc", ctx |-> "", cmd |-> 111, svc |-> 76, via |-> "c", conn |-> "", path |-> "", ops |-> <<>>, multi |-> FALSE,
          to |-> "0", ser |-> 0, ven |-> 1, orig |-> "1", seq |-> 0, api |-> <<>>]
OpR == [f |-> "read", svc |-> 76, tag |-> "a", idx |-> -1, n |-> 2, eo |-> 0, t |-> "INT", v |-> <<>>, as |-> <<>>]
OpW(x) == [OpR EXCEPT !.f = "write", !.svc = 77, !.v = <<x, x>>]
OpX == [OpR EXCEPT !.tag = "none"]

\* an originator knows the ids of its own connections only by the answers it got, and may well use one that is closed
Menu(s, n) ==
    LET c == ToString(10 * s + n)
        val == Home(s) \o "/" \o c IN
    {[Blank EXCEPT !.k = "unk", !.ctx = c], [Blank EXCEPT !.k = "bad", !.ctx = c], [Blank EXCEPT !.k = "nop", !.ctx = c]}
    \cup {[Blank EXCEPT !.k = "open", !.ctx = c, !.svc = 84, !.api = <<10 + n, 20 + n>>, !.to = ToString(100 + 10 * s + n), !.ser = 10 * s + n, !.path = p] : p \in Paths \cup {"9.9"}}
    \cup {[Blank EXCEPT !.k = "close", !.ctx = c, !.svc = 78, !.ser = m] : m \in {10 * s + 1, 10 * (3 - s) + 1, 99}}
    \cup {[Blank EXCEPT !.ctx = c, !.conn = i, !.seq = n, !.ops = <<o>>, !.svc = o.svc] : i \in told \cup {"7"}, o \in {OpR, OpW(val)}}
    \cup {[Blank EXCEPT !.ctx = c, !.conn = i, !.seq = n, !.multi = TRUE, !.svc = 10, !.ops = <<OpW(val), OpX, OpR>>] : i \in told}
    \cup {[Blank EXCEPT !.ctx = c, !.via = "u", !.path = p, !.ops = <<OpR>>] : p \in Paths}

Idle == [at |-> "idle", out |-> [ev |-> ""], left |-> 0]

MCInit ==
    /\ conns = {} /\ order = <<"a">> /\ ident = <<>>
    /\ store = [p \in Paths |-> [n \in {"a"} |-> [t |-> "INT", arr |-> TRUE, v |-> <<p, p>>]]]
    /\ kind = [p \in Paths |-> "map"]
    /\ sess = [s \in Sess |-> [up |-> TRUE, handle |-> ToString(s), q |-> <<>>, hurt |-> FALSE]]
    /\ iconns = {} /\ istore = [p \in Paths |-> <<p, p>>]
    /\ work = [s \in Sess |-> Idle] /\ last = "1.0" /\ used = {} /\ told = {}
    /\ sent = [s \in Sess |-> 0] /\ log = [s \in Sess |-> <<>>] /\ seen = {} /\ hist = <<>>

Send(s) ==
    /\ sent[s] < MaxReq /\ sess[s].up
    \* scenarios are generated without requests that overlap
    /\ Gen => \A x \in Sess : sess[x].q = <<>>
    /\ \E r \in Menu(s, sent[s] + 1) :
         /\ Request(s, r)
         /\ hist' = IF Gen THEN Append(hist, [s |-> s, k |-> r.k, ser |-> r.ser, path |-> r.path, conn |-> r.conn, via |-> r.via, multi |-> r.multi,
                                              f |-> IF r.ops = <<>> THEN "" ELSE r.ops[1].f]) ELSE hist
    /\ sent' = [sent EXCEPT ![s] = @ + 1]
    /\ UNCHANGED <<iconns, istore, work, last, used, told, log, seen>>

\* the bare answer to the request that is worked on
Ans(s, r) == [ev |-> "reply", ctx |-> r.ctx, cmd |-> r.cmd, handle |-> sess[s].handle, encap |-> 0, st |-> 0, svc |-> Bit7(r.svc), res |-> <<>>,
              conn |-> "", seq |-> r.seq, ot |-> "0", to |-> "0", ser |-> r.ser, ven |-> r.ven, orig |-> r.orig, api |-> r.api, id |-> <<>>]
Fail(s, r) == [Ans(s, r) EXCEPT !.st = 5]
Res(op, v) == [svc |-> Bit7(op.svc), st |-> 0, t |-> IF op.f = "read" THEN "INT" ELSE "", v |-> v, id |-> <<>>, list |-> <<>>]
ResX(op) == [Res(op, <<>>) EXCEPT !.st = 5, !.t = ""]

\* the values of the array before each of the operations and after the last
Steps(p, ops) == IF Len(ops) = 1 THEN IF ops[1].f = "write" THEN <<istore[p], ops[1].v>> ELSE <<istore[p], istore[p]>>
                 ELSE <<istore[p], ops[1].v, ops[1].v, ops[1].v>>

IHas(r) == \E c \in iconns : c.ot = r.conn
ITarget(r) == CASE r.via = "u" -> r.path
                [] Careless = "last" -> last
                [] ~IHas(r) -> None
                [] OTHER -> (CHOOSE c \in iconns : c.ot = r.conn).path
ITo(r) == IF IHas(r) THEN (CHOOSE c \in iconns : c.ot = r.conn).to ELSE "0"

\* The worker of s takes the first request that has not been handled and does what it asks for.  EipServer takes it at the same time.
First(s) == CHOOSE i \in 1..Len(sess[s].q) : ~sess[s].q[i].done /\ \A j \in 1..(i - 1) : sess[s].q[j].done
HasWork(s) == sess[s].up /\ \E i \in 1..Len(sess[s].q) : ~sess[s].q[i].done

Goes(s, out) == work' = [work EXCEPT ![s] = [at |-> "reply", out |-> out, left |-> 0]]

WorkService(s, r) ==
    LET p == ITarget(r) IN
    IF p = None
    THEN Goes(s, Fail(s, r)) /\ UNCHANGED <<iconns, istore, last, used>>
    ELSE LET V == Steps(p, r.ops)
             res == [k \in 1..Len(r.ops) |-> IF r.ops[k].tag # "a" THEN ResX(r.ops[k])
                                             ELSE Res(r.ops[k], IF r.ops[k].f = "read" THEN V[k] ELSE <<>>)]
             end == V[Len(r.ops) + 1]
             res2 == IF Careless = "short" /\ r.multi THEN SelectSeq(res, LAMBDA x : x.st = 0) ELSE res IN
         /\ Goes(s, [Ans(s, r) EXCEPT !.res = res2, !.st = IF r.multi THEN 30 ELSE 0, !.conn = IF Careless = "to" THEN r.conn ELSE ITo(r)])
         /\ istore' = [istore EXCEPT ![p] = IF Careless = "torn" /\ end # @ THEN <<end[1], @[2]>> ELSE end]
         /\ UNCHANGED <<iconns, last, used>>

WorkOpen(s, r) ==
    IF r.path \notin Paths THEN Goes(s, Fail(s, r)) /\ UNCHANGED <<iconns, istore, last, used>>
    ELSE \E n \in {1, 2, 3, 4, 5, 6} :
         /\ IF Careless = "ids" THEN n = IF s = 1 THEN 1 ELSE Cardinality(iconns) + 1
            ELSE n = CHOOSE m \in 1..6 : ToString(m) \notin used /\ \A k \in 1..(m - 1) : ToString(k) \in used
         /\ iconns' = iconns \cup {[ot |-> ToString(n), to |-> r.to, own |-> <<r.ser, r.ven, r.orig>>, path |-> r.path]}
         /\ last' = r.path /\ used' = used \cup {ToString(n)}
         /\ Goes(s, [Ans(s, r) EXCEPT !.ot = ToString(n), !.to = r.to])
         /\ UNCHANGED istore

WorkClose(s, r) ==
    LET C == {c \in iconns : c.own = <<r.ser, r.ven, r.orig>>} IN
    /\ IF C = {} THEN Goes(s, IF Careless = "closes" THEN Ans(s, r) ELSE Fail(s, r)) /\ UNCHANGED iconns
       ELSE Goes(s, Ans(s, r)) /\ iconns' = IF Careless = "keep" THEN iconns ELSE iconns \ C
    /\ UNCHANGED <<istore, last, used>>

\* EipServer's steps for all the operations of a request, one after the other
MultiHandled(s) ==
    \E i \in {First(s)} :
      \E e \in {sess[s].q[i]} :
        \E p \in {Target(e.r)} :
          \E x1 \in Op(p, store[p], "c", e.r.ops[1]) :
          \E x2 \in Op(p, x1.tags, "c", e.r.ops[2]) :
          \E x3 \in Op(p, x2.tags, "c", e.r.ops[3]) :
            /\ Upd(s, i, [e EXCEPT !.sub = <<x1.res, x2.res, x3.res>>, !.done = TRUE, !.ok = "ok", !.to = (CHOOSE c \in ByOT(e.r.conn) : TRUE).to])
            /\ store' = [store EXCEPT ![p] = x3.tags]
            /\ UNCHANGED <<conns, kind, ident, order>>

Work(s) ==
    /\ work[s].at = "idle" /\ HasWork(s)
    /\ \E r \in {sess[s].q[First(s)].r} :
         /\ CASE r.k = "svc" -> WorkService(s, r)
              [] r.k = "open" -> WorkOpen(s, r)
              [] r.k = "close" -> WorkClose(s, r)
              [] r.k = "unk" -> Goes(s, [Ans(s, r) EXCEPT !.encap = 1]) /\ UNCHANGED <<iconns, istore, last, used>>
              [] r.k = "bad" -> /\ \/ Goes(s, Fail(s, r))
                                   \/ work' = [work EXCEPT ![s].at = "end"]
                                /\ UNCHANGED <<iconns, istore, last, used>>
              [] OTHER -> /\ IF Careless = "nop" THEN Goes(s, Ans(s, r)) ELSE UNCHANGED work
                          /\ UNCHANGED <<iconns, istore, last, used>>
         \* the operations of a multiple service request are done while nothing else is
         /\ IF r.k = "svc" /\ r.multi /\ Len(r.ops) > 1 /\ ByOT(r.conn) # {}
            THEN MultiHandled(s)
            ELSE Handle(s)
         \* where EipServer leaves a choice it is the server's
         /\ r.k = "open" => sess'[s].q[First(s)].ok = IF work'[s].out.st = 0 THEN "ok" ELSE "err"
         /\ r.k = "bad" => (work'[s].at = "end") = (Len(sess'[s].q) < Len(sess[s].q))
    /\ UNCHANGED <<told, sent, log, seen, hist>>

Answer(s) ==
    /\ work[s].at = "reply"
    /\ \E e \in {IF Careless = "swap" /\ work[3 - s].at = "reply" THEN [work[s].out EXCEPT !.ctx = work[3 - s].out.ctx] ELSE work[s].out} :
         /\ Reply(s, e)
         /\ told' = IF e.ot # "0" THEN told \cup {e.ot} ELSE told
         /\ log' = [log EXCEPT ![s] = Append(@, e.ctx)]
         /\ seen' = seen \cup {[path |-> IF sess[s].q[1].r.via = "u" THEN sess[s].q[1].r.path
                                         ELSE IF ByOT(sess[s].q[1].r.conn) = {} THEN "" ELSE (CHOOSE c \in ByOT(sess[s].q[1].r.conn) : TRUE).path,
                                v |-> e.res[k].v] : k \in {m \in 1..Len(e.res) : e.res[m].v # <<>>}}
    /\ work' = [work EXCEPT ![s] = IF Careless = "twice" THEN [@ EXCEPT !.left = 1 - @, !.at = IF work[s].left = 0 THEN "reply" ELSE "idle"] ELSE Idle]
    /\ UNCHANGED <<iconns, istore, last, used, sent, hist>>

\* careless: an array is written in two steps
Mend == \E p \in Paths : /\ istore[p][1] # istore[p][2]
                        /\ istore' = [istore EXCEPT ![p] = <<@[1], @[1]>>]
                        /\ UNCHANGED <<svars, iconns, work, last, used, told, sent, log, seen, hist>>

End(s) ==
    \/ /\ work[s].at = "end"
       /\ Ends(s)
       /\ work' = [work EXCEPT ![s] = Idle]
       /\ UNCHANGED <<iconns, istore, last, used, told, sent, log, seen, hist>>
    \/ Careless = "torn" /\ Mend

MCNext == \E s \in Sess : Send(s) \/ Work(s) \/ Answer(s) \/ End(s)
Spec == MCInit /\ [][MCNext]_<<svars, ivars>>

\* what the server is about to do is allowed
Allowed == \A s \in Sess : /\ work[s].at = "reply" => ENABLED Answer(s)
                           /\ work[s].at = "end" => ENABLED Ends(s)
                           /\ (work[s].at = "idle" /\ HasWork(s)) => ENABLED Work(s)
\* by itself: no answer comes twice or before an earlier one, arrays are whole, connections lead where they were opened
InOrder == \A s \in Sess : \A i, j \in 1..Len(log[s]) : i < j => log[s][i] # log[s][j] /\ Len(log[s]) <= sent[s]
Whole == \A x \in seen : x.v[1] = x.v[2]
Distinct == \A c, d \in conns : c # d /\ c.ot # "" => c.ot # d.ot
Same2 == \A p \in Paths : Careless = "no" => istore[p] = store[p]["a"].v
Emit == (Gen /\ hist # <<>> /\ \A x \in Sess : sess[x].q = <<>>) => PrintT("SCN " \o ToJson(hist))
=============================================================================
