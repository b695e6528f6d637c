------------------------------- MODULE IoServer -------------------------------
(* Class-1 I/O of the server: what its connections send and where what they      *)
(* receive goes (S05).  Images are numbered: the n-th image put in at a provider  *)
(* is n, the n-th output packet carries image n; -1 is an image nobody made.      *)
(*                                                                                *)
(*  provider p   k: struct (an image in, an image out), chan (an image in,         *)
(*               subscribers for what comes out), rec (is handed every packet)    *)
(*               mute: it has nothing to send at the moment                       *)
(*  beg, cur     the last image whose putting in was begun / was finished         *)
(*  conn         a connection: opening, open, closing, shut (its traffic has a    *)
(*               moment to end), gone, refused                                    *)
(*  cand         what the out image may be now; post: what it may be once all     *)
(*               that was sent has arrived                                        *)
(*  due          what is still to be handed to a recorder or a subscriber, in     *)
(*               order; an entry which is optional may be left out                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind, beg, cur, conn, cand, post, due, subs

ivars == <<kind, beg, cur, conn, cand, post, due, subs>>

Provs == DOMAIN kind
Conns == DOMAIN conn
None == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

IInit == kind = None /\ beg = None /\ cur = None /\ conn = None /\ cand = None /\ post = None /\ due = None /\ subs = None

Key(p, s) == <<p, s>>           \* s = 0: the recorder of p itself

Setup(provs) == /\ kind' = [p \in {provs[i].p : i \in DOMAIN provs} |-> [k |-> (CHOOSE x \in {provs[i] : i \in DOMAIN provs} : x.p = p).kind, mute |-> FALSE]]
                /\ beg' = [p \in DOMAIN kind' |-> 0]
                /\ cur' = beg'
                /\ cand' = [p \in DOMAIN kind' |-> {0}]
                /\ post' = cand'
                /\ due' = [k \in {Key(p, 0) : p \in {q \in DOMAIN kind' : kind'[q].k = "rec"}} |-> <<>>]
                /\ UNCHANGED <<conn, subs>>

----------------------------------------------------------------------------
(* images in *)
SetBegin(p, v) == /\ v > beg[p]
                  /\ beg' = [beg EXCEPT ![p] = v]
                  /\ UNCHANGED <<kind, cur, conn, cand, post, due, subs>>
SetEnd(p, v) == /\ beg[p] = v
                /\ cur' = [cur EXCEPT ![p] = v]
                /\ UNCHANGED <<kind, beg, conn, cand, post, due, subs>>

(* a provider has nothing to send, or has again; its connections stay *)
Mute(p, b) == /\ kind' = [kind EXCEPT ![p].mute = b]
              /\ UNCHANGED <<beg, cur, conn, cand, post, due, subs>>

----------------------------------------------------------------------------
(* connections *)
Live(c) == conn[c].st \in {"opening", "open", "closing", "shut"}

Open(c, p, to, addr, rpi) ==
  /\ c \notin Conns
  /\ conn' = Put(conn, c, [p |-> p, to |-> to, addr |-> addr, rpi |-> rpi, ot |-> "", st |-> "opening",
                           seq |-> 0, s16 |-> 0, img |-> IF p \in Provs THEN cur[p] ELSE 0, any |-> FALSE])
  /\ UNCHANGED <<kind, beg, cur, cand, post, due, subs>>

(* a connection is possible to a provider, with an interval; its O->T id is nobody else's *)
Opened(c, ok, ot) ==
  /\ conn[c].st = "opening"
  /\ ok = (conn[c].p \in Provs /\ conn[c].rpi > 0)
  /\ ok => \A d \in Conns \ {c} : conn[d].st = "open" => conn[d].ot # ot
  /\ conn' = [conn EXCEPT ![c].st = IF ok THEN "open" ELSE "refused", ![c].ot = ot]
  /\ UNCHANGED <<kind, beg, cur, cand, post, due, subs>>

(* what has not arrived when a connection is closed need not arrive any more *)
Optional(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.opt = TRUE]]
Close(c, named) ==
  /\ conn[c].st \in {"open", "gone", "shut", "refused"}
  /\ IF named /\ conn[c].st = "open"
       THEN /\ conn' = [conn EXCEPT ![c].st = "closing"]
            /\ post' = [post EXCEPT ![conn[c].p] = cand[conn[c].p]]
            /\ due' = [k \in DOMAIN due |-> IF k[1] = conn[c].p THEN Optional(due[k]) ELSE due[k]]
       ELSE UNCHANGED <<conn, post, due>>
  /\ UNCHANGED <<kind, beg, cur, cand, subs>>
(* it is the connection which the triple names that is closed; there has to be one *)
Closed(c, ok, named) ==
  /\ ok = (named /\ conn[c].st = "closing")
  /\ conn' = IF ok THEN [conn EXCEPT ![c].st = "shut"] ELSE conn
  /\ UNCHANGED <<kind, beg, cur, cand, post, due, subs>>
Quiet == /\ conn' = [c \in Conns |-> IF conn[c].st = "shut" THEN [conn[c] EXCEPT !.st = "gone"] ELSE conn[c]]
         /\ UNCHANGED <<kind, beg, cur, cand, post, due, subs>>

----------------------------------------------------------------------------
(* packets the server sends *)
Wrap == 65536
\* min: the image that was in when the connection's packet before this one was sent
Packet(to, addr, seq, s16, p, v, min) ==
  \E c \in Conns :
    /\ Live(c)
    /\ conn[c].to = to /\ conn[c].addr = addr
    /\ p = conn[c].p
    /\ v >= conn[c].img /\ v >= min /\ v <= beg[p]
    /\ seq > conn[c].seq
    /\ conn[c].any => (s16 - conn[c].s16 + Wrap) % Wrap \in 1..(Wrap \div 2)
    /\ conn' = [conn EXCEPT ![c].seq = seq, ![c].s16 = s16, ![c].img = v, ![c].any = TRUE]
    /\ UNCHANGED <<kind, beg, cur, cand, post, due, subs>>

(* everybody has been sent the images that are in now *)
Settled == /\ \A c \in Conns : conn[c].st = "open" /\ ~kind[conn[c].p].mute => conn[c].any /\ conn[c].img = cur[conn[c].p]
           /\ UNCHANGED ivars

(* n packets in us microseconds *)
Rate(c, n, us) ==
  /\ conn[c].st = "open"
  /\ 10 * n * conn[c].rpi <= 12 * us + 50 * conn[c].rpi
  /\ kind[conn[c].p].mute \/ 10 * (n + 2) * conn[c].rpi >= 4 * us
  /\ UNCHANGED ivars

----------------------------------------------------------------------------
(* packets the server receives: good, free (damaged in a way that leaves it to   *)
(* the provider what to make of it) or bad                                       *)
Waiting(p) == {s \in DOMAIN subs : subs[s].p = p /\ subs[s].waits}

To(c, v, good, free) ==
  LET p == conn[c].p IN
  /\ cand' = IF kind[p].k = "struct" THEN [cand EXCEPT ![p] = @ \cup {v}] ELSE cand
  /\ post' = IF kind[p].k = "struct" THEN [post EXCEPT ![p] = IF good THEN {v} ELSE @ \cup {v}] ELSE post
  /\ due' = [k \in DOMAIN due |->
              IF k[1] # p THEN due[k]
              ELSE IF k[2] = 0 THEN Append(due[k], [v |-> v, opt |-> free])
              \* two in a row: the second may come before the subscriber is back
              ELSE IF subs[k[2]].waits THEN Append(due[k], [v |-> v, opt |-> free \/ due[k] # <<>> \/ subs[k[2]].busy]) ELSE due[k]]
  /\ subs' = [s \in DOMAIN subs |-> IF subs[s].p = p THEN [subs[s] EXCEPT !.busy = TRUE] ELSE subs[s]]

Out(ot, v, good, free) ==
  /\ IF (good \/ free) /\ \E c \in Conns : conn[c].st = "open" /\ conn[c].ot = ot
       THEN To(CHOOSE c \in Conns : conn[c].st = "open" /\ conn[c].ot = ot, v, good, free)
       ELSE UNCHANGED <<cand, post, due, subs>>
  /\ UNCHANGED <<kind, beg, cur, conn>>

Skip(q, i) == \A j \in 1..(i - 1) : q[j].opt
Take(k, v) == \E i \in DOMAIN due[k] :
                /\ Skip(due[k], i)
                /\ due[k][i].v = v \/ (due[k][i].opt /\ v = -1)
                /\ due' = [due EXCEPT ![k] = SubSeq(@, i + 1, Len(@))]

Got(p, v) == /\ kind[p].k = "rec"
             /\ Take(Key(p, 0), v)
             /\ UNCHANGED <<kind, beg, cur, conn, cand, post, subs>>

Subscribe(s, p, waits) == /\ s \notin DOMAIN subs
                          /\ subs' = Put(subs, s, [p |-> p, waits |-> waits, busy |-> FALSE])
                          /\ due' = Put(due, Key(p, s), <<>>)
                          /\ UNCHANGED <<kind, beg, cur, conn, cand, post>>
Park(s) == /\ subs' = [subs EXCEPT ![s].waits = FALSE]
           /\ UNCHANGED <<kind, beg, cur, conn, cand, post, due>>
Deliver(s, v) == /\ Take(Key(subs[s].p, s), v)
                 /\ UNCHANGED <<kind, beg, cur, conn, cand, post, subs>>

(* the image at the provider, whole, and never an older one than before *)
Image(p, v) == /\ v \in cand[p]
               /\ cand' = [cand EXCEPT ![p] = {x \in @ : x >= v}]
               /\ post' = [post EXCEPT ![p] = IF {x \in @ : x >= v} = {} THEN {v} ELSE {x \in @ : x >= v}]
               /\ UNCHANGED <<kind, beg, cur, conn, due, subs>>

(* everything that was sent has arrived *)
Synced == /\ \A k \in DOMAIN due : \A i \in DOMAIN due[k] : due[k][i].opt
          /\ due' = [k \in DOMAIN due |-> <<>>]
          /\ cand' = post
          /\ subs' = [s \in DOMAIN subs |-> [subs[s] EXCEPT !.busy = FALSE]]
          /\ UNCHANGED <<kind, beg, cur, conn, post>>
Over == UNCHANGED ivars
=============================================================================
