------------------------------ MODULE IoServerMC ------------------------------
(* A server with a table of connections, a sender for each, one receiver and      *)
(* providers of two kinds, against IoServer: whatever it sends, hands over or      *)
(* shows has to be allowed.  The environment opens, closes, puts images in, sends   *)
(* whole and damaged packets and takes part as subscriber.                          *)
(* Careless: "" or what the server gets wrong.                                      *)
EXTENDS IoServer, Json, TLC
CONSTANTS Cs, Ps, Ss, Steps, Careless, Gen

VARIABLES tab,    \* connection -> [ot, p, addr, open]: what the server knows
          snd,    \* connection -> [on, seq, has, v]: its sender; has: it has an image to send
          que,    \* packets on their way to the server
          inp,    \* provider -> <<first half, second half>> of the image in
          outp,   \* provider -> <<first half, second half>> of the image out
          ready,  \* subscriber -> it waits for the next
          hold,   \* subscriber -> what it has taken and not yet shown
          steps, last, log, ok

mvars == <<ivars, tab, snd, que, inp, outp, ready, hold, steps, last, log, ok>>
impl == <<tab, snd, que, inp, outp, ready, hold>>

KindOf(p) == IF p = 1 THEN "struct" ELSE "chan"
AddrOf(c) == IF c = "c1" THEN "x" ELSE "y"
OtOf(c) == c
Whole(w) == IF w[1] = w[2] THEN w[1] ELSE -1

MCInit == /\ kind = [p \in Ps |-> [k |-> KindOf(p), mute |-> FALSE]]
          /\ beg = [p \in Ps |-> 0] /\ cur = beg
          /\ cand = [p \in Ps |-> {0}] /\ post = cand
          /\ conn = [x \in {} |-> 0]
          /\ due = [k \in {Key(2, s) : s \in Ss} |-> <<>>]
          /\ subs = [s \in Ss |-> [p |-> 2, waits |-> s = 1, busy |-> FALSE]]
          /\ tab = [x \in {} |-> 0] /\ snd = [x \in {} |-> 0] /\ que = <<>>
          /\ inp = [p \in Ps |-> <<0, 0>>] /\ outp = [p \in Ps |-> <<0, 0>>]
          /\ ready = [s \in Ss |-> s = 1] /\ hold = [s \in Ss |-> <<>>]
          /\ steps = 0 /\ last = 0 /\ log = <<>> /\ ok = TRUE

\* the observable A happens; the specification allows it or not
Sees(A) == IF ENABLED A THEN A /\ UNCHANGED ok ELSE UNCHANGED ivars /\ ok' = FALSE
Env(x) == steps < Steps /\ steps' = steps + 1 /\ log' = IF Gen THEN Append(log, x) ELSE log
Server == UNCHANGED <<steps, log, last>>

\* opening and closing, with the replies
EOpen == \E c \in Cs \ Conns, p \in Ps :
           /\ Env([do |-> "open", c |-> c, p |-> p])
           /\ Open(c, p, c, AddrOf(c), 1)
           /\ UNCHANGED <<impl, last, ok>>
SOpen == \E c \in Conns :
           /\ conn[c].st = "opening"
           /\ tab' = Put(tab, c, [ot |-> OtOf(c), p |-> conn[c].p, addr |-> AddrOf(c)])
           /\ snd' = Put(snd, c, [on |-> TRUE, seq |-> 0, has |-> FALSE, v |-> 0, fresh |-> FALSE, min |-> 0])
           /\ Sees(Opened(c, TRUE, OtOf(c)))
           /\ UNCHANGED <<que, inp, outp, ready, hold>> /\ Server
EClose == \E c \in Conns :
           /\ conn[c].st = "open"
           /\ Env([do |-> "close", c |-> c])
           /\ Close(c, TRUE)
           /\ UNCHANGED <<impl, last, ok>>
Victim(c) == IF Careless = "victim" /\ DOMAIN tab # {} THEN CHOOSE d \in DOMAIN tab : TRUE ELSE c
SClose == \E c \in Conns :
           /\ conn[c].st = "closing"
           /\ tab' = [d \in DOMAIN tab \ {Victim(c)} |-> tab[d]]
           /\ Sees(Closed(c, TRUE, TRUE))
           /\ UNCHANGED <<snd, que, inp, outp, ready, hold>> /\ Server
\* a sender that finds its connection gone ends; everything has had time to end before it is quiet
Ended(c) == c \notin DOMAIN tab
SEnd == \E c \in DOMAIN snd :
           /\ snd[c].on /\ Ended(c) /\ Careless # "stop" /\ ~snd[c].has
           /\ snd' = [snd EXCEPT ![c].on = FALSE]
           /\ UNCHANGED <<ivars, tab, que, inp, outp, ready, hold, ok>> /\ Server
EQuiet == /\ \E c \in Conns : conn[c].st = "shut"
          /\ \A c \in DOMAIN snd : conn[c].st = "shut" => ~snd[c].on \/ Careless = "stop"
          /\ Env([do |-> "drain"])
          /\ Quiet
          /\ UNCHANGED <<impl, last, ok>>

\* images in; in place, half by half, while nobody reads
ESet == \E p \in Ps : /\ cur[p] = beg[p]
                      /\ Env([do |-> "set", p |-> p])
                      /\ SetBegin(p, beg[p] + 1)
                      /\ inp' = IF Careless = "tear" THEN [inp EXCEPT ![p][1] = beg[p] + 1] ELSE inp
                      /\ UNCHANGED <<tab, snd, que, outp, ready, hold, last, ok>>
EIsSet == \E p \in Ps : /\ cur[p] # beg[p]
                        /\ SetEnd(p, beg[p])
                        /\ inp' = [inp EXCEPT ![p] = <<beg[p], beg[p]>>]
                        /\ snd' = [c \in DOMAIN snd |-> [snd[c] EXCEPT !.fresh = FALSE]]
                        /\ UNCHANGED <<tab, que, outp, ready, hold, last, ok, steps, log>>
EMute == \E p \in Ps : /\ ~Gen
                       /\ Env([do |-> "err", p |-> p])
                       /\ Mute(p, ~kind[p].mute)
                       /\ UNCHANGED <<impl, last, ok>>
\* every sender has taken and sent an image since
ESettled == /\ beg = cur
            /\ \A c \in Conns : conn[c].st # "opening" /\ (conn[c].st = "open" => (snd[c].fresh \/ kind[conn[c].p].mute) /\ ~snd[c].has)
            /\ Env([do |-> "settle"])
            /\ Sees(Settled)
            /\ UNCHANGED <<impl, last>>

\* the senders: an image is taken and then sent
STake == \E c \in DOMAIN snd :
           /\ snd[c].on /\ ~snd[c].has /\ (~Ended(c) \/ Careless = "stop") /\ conn[c].st # "opening"
           /\ ~kind[conn[c].p].mute
           /\ snd[c].seq < 2
           /\ snd' = [snd EXCEPT ![c].has = TRUE, ![c].fresh = TRUE, ![c].v = IF Careless = "first" /\ snd[c].seq > 0 THEN @ ELSE Whole(inp[conn[c].p]), ![c].seq = IF Careless = "seq" THEN 1 ELSE @ + 1]
           /\ UNCHANGED <<ivars, tab, que, inp, outp, ready, hold, ok>> /\ Server
SSend == \E c \in DOMAIN snd :
           /\ snd[c].has
           /\ snd' = [snd EXCEPT ![c].has = FALSE, ![c].min = cur[conn[c].p]]
           /\ Sees(Packet(c, IF Careless = "addr" THEN "x" ELSE AddrOf(c), snd[c].seq, snd[c].seq, conn[c].p, snd[c].v, snd[c].min))
           /\ UNCHANGED <<tab, que, inp, outp, ready, hold>> /\ Server

\* packets: whole (2 halves) or cut
EOut == \E c \in Conns, cut \in BOOLEAN :
           /\ conn[c].st \in {"open", "gone"}
           /\ Env([do |-> "out", c |-> c, cut |-> cut])
           /\ last' = last + 1
           /\ que' = Append(que, [ot |-> conn[c].ot, v |-> last + 1, cut |-> cut])
           /\ Out(conn[c].ot, last + 1, ~cut, FALSE)
           /\ UNCHANGED <<tab, snd, inp, outp, ready, hold, ok>>
Named(ot) == {c \in DOMAIN tab : tab[c].ot = ot}
SRecv == /\ que # <<>>
         /\ LET m == Head(que)
                to == IF Careless = "any" THEN DOMAIN tab ELSE Named(m.ot)
                p == IF to = {} THEN 0 ELSE tab[CHOOSE c \in to : TRUE].p
                full == \E s \in Ss : subs[s].waits = FALSE
            IN /\ que' = Tail(que)
               /\ outp' = IF p = 1 THEN [outp EXCEPT ![1] = IF m.cut THEN (IF Careless = "half" THEN <<m.v, @[2]>> ELSE @) ELSE <<m.v, m.v>>] ELSE outp
               /\ IF p = 2 /\ ~m.cut /\ ~(Careless = "full" /\ full)
                  THEN /\ hold' = [s \in Ss |-> IF ready[s] THEN <<m.v>> ELSE hold[s]]
                       /\ ready' = [s \in Ss |-> FALSE]
                  ELSE UNCHANGED <<hold, ready>>
         /\ UNCHANGED <<ivars, tab, snd, inp, ok>> /\ Server
SShow == \E s \in Ss : /\ hold[s] # <<>>
                       /\ hold' = [hold EXCEPT ![s] = <<>>]
                       /\ ready' = [ready EXCEPT ![s] = TRUE]
                       /\ Sees(Deliver(s, hold[s][1]))
                       /\ UNCHANGED <<tab, snd, que, inp, outp>> /\ Server
EImage == /\ Sees(Image(1, Whole(outp[1])))
          /\ UNCHANGED <<impl, steps, log, last>>
ESync == /\ que = <<>> /\ \A s \in Ss : hold[s] = <<>>
         /\ Env([do |-> "sync"])
         /\ Sees(Synced)
         /\ UNCHANGED <<impl, last>>

MCNext == ok /\ (EOpen \/ SOpen \/ EClose \/ SClose \/ SEnd \/ EQuiet \/ ESet \/ EIsSet \/ EMute \/ ESettled \/ STake \/ SSend \/ EOut \/ SRecv \/ SShow \/ EImage \/ ESync)
Spec == MCInit /\ [][MCNext]_mvars
Allowed == ok
Emit == (Gen /\ steps = Steps) => PrintT("SCN " \o ToJson(log))
=============================================================================
