----------------------------- MODULE EipClientMC -----------------------------
(* A reference client - the locking and status discipline the implementation is *)
(* meant to follow - composed with an unreliable target.  TLC checks that it    *)
(* only ever does what EipClient allows (every step of it is one of EipClient's *)
(* actions, with all the guards on, and it never gets stuck), and prints its    *)
(* behaviours as scenarios for the real client.                                 *)
EXTENDS EipClient, Json

CONSTANTS Threads, MaxOps, MaxConns, Large, Auto, Ops, Faults, MaxFaults, Gen

VARIABLES
    pc,      \* thread -> where it is
    call,    \* thread -> its call's id and kind
    mtx,     \* the thread which holds the client's mutex (0: none)
    stat,    \* the client's status
    sock,    \* the client's current network connection
    seqn,    \* the sequence counter
    nops, nf, hist, decs   \* bookkeeping

mcvars == <<pc, call, mtx, stat, sock, seqn, nops, nf, hist, decs>>
vars == <<evars, mcvars>>

Key(c) == "t" \o ToString(c)

Init == /\ EInit([auto |-> Auto, size |-> IF Large THEN 4000 ELSE 504, ka |-> FALSE, vendor |-> "v", orig |-> "o"])
        /\ pc = [th \in Threads |-> "idle"]
        /\ call = [th \in Threads |-> [id |-> 0, op |-> ""]]
        /\ mtx = 0 /\ stat = "disc" /\ sock = 0 /\ seqn = 0 /\ nops = 0 /\ nf = 0
        /\ hist = [th \in Threads |-> <<>>] /\ decs = <<>>

Goto(th, p) == pc' = [pc EXCEPT ![th] = p]
Same(S) == UNCHANGED S

Start(th, op) ==
    /\ pc[th] = "idle" /\ nops < MaxOps
    /\ nops' = nops + 1
    /\ call' = [call EXCEPT ![th] = [id |-> nops + 1, op |-> op]]
    /\ hist' = [hist EXCEPT ![th] = Append(@, op)]
    /\ Call(nops + 1, op, IF op = "unit" THEN {Key(nops + 1)} ELSE {}, FALSE)
    /\ Goto(th, "begin")
    /\ Same(<<mtx, stat, sock, seqn, nf, decs>>)

\* the status transitions, each atomic under the mutex
Begin(th) ==
    /\ pc[th] = "begin" /\ mtx = 0
    /\ LET op == call[th].op
           conn == op = "connect" \/ (op = "unit" /\ stat # "conn" /\ Auto)
       IN IF conn THEN IF stat = "disc" THEN stat' = "connecting" /\ Goto(th, "dial") ELSE stat' = stat /\ Goto(th, "err")
          ELSE IF op = "unit" THEN stat' = stat /\ Goto(th, IF stat = "conn" THEN "send" ELSE "err")
          ELSE IF stat = "conn" THEN stat' = "discing" /\ Goto(th, "close") ELSE stat' = stat /\ Goto(th, "err")
    /\ Same(<<evars, call, mtx, sock, seqn, nops, nf, hist, decs>>)

Dial(th) ==
    /\ pc[th] = "dial" /\ N < MaxConns
    /\ Tcp(N + 1)
    /\ sock' = N + 1
    /\ Goto(th, "reg")
    /\ Same(<<call, mtx, stat, seqn, nops, nf, hist, decs>>)

Ask == [kind |-> "", key |-> "", session |-> Cur.sess, ot |-> Cur.ot, seq |-> 0, large |-> FALSE, size |-> 0,
        serial |-> "s", vendor |-> "v", orig |-> "o"]

CanSend == sock # 0 /\ cs[sock].flt = ""

SendReg(th) ==
    /\ pc[th] = "reg" /\ mtx = 0 /\ CanSend
    /\ Req(sock, [Ask EXCEPT !.kind = "reg"])
    /\ mtx' = th /\ Goto(th, "regw")
    /\ Same(<<call, stat, sock, seqn, nops, nf, hist, decs>>)

SendOpen(th) ==
    /\ pc[th] = "open" /\ mtx = 0 /\ CanSend
    /\ LET large == Large /\ ~fb IN
       Req(sock, [Ask EXCEPT !.kind = "open", !.large = large, !.size = IF large THEN cfg.size ELSE IF Large THEN STDMAX ELSE cfg.size])
    /\ mtx' = th /\ Goto(th, "openw")
    /\ Same(<<call, stat, sock, seqn, nops, nf, hist, decs>>)

SendUnit(th) ==
    /\ pc[th] = "send" /\ mtx = 0
    /\ IF stat = "conn" /\ CanSend
       THEN /\ seqn' = (seqn + 1) % 3
            /\ Req(sock, [Ask EXCEPT !.kind = "unit", !.key = Key(call[th].id), !.seq = (seqn + 1) % 3])
            /\ mtx' = th /\ Goto(th, "sendw")
            /\ Same(<<call, stat, sock, nops, nf, hist, decs>>)
       ELSE /\ stat' = IF stat = "conn" THEN "disc" ELSE stat      \* the write fails: the connection is given up
            /\ Goto(th, "err")
            /\ Same(<<evars, call, mtx, sock, seqn, nops, nf, hist, decs>>)

SendClose(th) ==
    /\ pc[th] = "close" /\ mtx = 0
    /\ IF CanSend
       THEN /\ Req(sock, [Ask EXCEPT !.kind = "close"])
            /\ mtx' = th /\ Goto(th, "closew")
            /\ Same(<<call, stat, sock, seqn, nops, nf, hist, decs>>)
       ELSE /\ Goto(th, "fin")
            /\ Same(<<evars, call, mtx, stat, sock, seqn, nops, nf, hist, decs>>)

\* sending fails because the target has hung up meanwhile
SendFails(th) ==
    /\ pc[th] \in {"reg", "open"} /\ mtx = 0 /\ ~CanSend
    /\ Goto(th, "fail")
    /\ Same(<<evars, call, mtx, stat, sock, seqn, nops, nf, hist, decs>>)

\* the target decides what becomes of the outstanding request
Answer(th, ok) ==
    /\ pc[th] \in {"regw", "openw", "sendw", "closew"}
    /\ LET k == cs[sock].pend
           kind == IF k.kind = "lopen" THEN "open" ELSE k.kind
       IN Rep(sock, [kind |-> kind, key |-> k.key, st |-> IF ok THEN 0 ELSE 5, session |-> "h" \o ToString(sock),
                     ot |-> "x" \o ToString(sock), val |-> "v" \o k.key])
    /\ mtx' = 0
    /\ decs' = Append(decs, IF ok THEN "ok" ELSE "refuse")
    /\ CASE pc[th] = "regw" -> Goto(th, IF ok THEN "open" ELSE "fail") /\ Same(stat)
         [] pc[th] = "openw" -> IF ok THEN Goto(th, "opened") /\ Same(stat)
                                ELSE Goto(th, IF cs[sock].pend.kind = "lopen" THEN "open" ELSE "fail") /\ Same(stat)
         [] pc[th] = "sendw" -> Goto(th, IF ok THEN "ok" ELSE "err") /\ Same(stat)
         [] pc[th] = "closew" -> Goto(th, "fin") /\ Same(stat)
    /\ nf' = IF ok THEN nf ELSE nf + 1
    /\ (~ok => nf < MaxFaults)
    /\ Same(<<call, sock, seqn, nops, hist>>)

Lose(th, f) ==
    /\ pc[th] \in {"regw", "openw", "sendw", "closew"} /\ nf < MaxFaults
    /\ Fault(sock)
    /\ nf' = nf + 1
    /\ mtx' = 0
    /\ decs' = Append(decs, f)
    /\ CASE pc[th] \in {"regw", "openw"} -> Goto(th, "fail") /\ Same(stat)
         [] pc[th] = "sendw" -> Goto(th, "err") /\ stat' = IF stat = "conn" THEN "disc" ELSE stat  \* still under the mutex
         [] pc[th] = "closew" -> Goto(th, "fin") /\ Same(stat)
    /\ Same(<<call, sock, seqn, nops, hist>>)

HangUp ==
    /\ N > 0 /\ Cur.flt = "" /\ (Gen => Cur.st = "open") /\ Cur.pend = NoReq /\ nf < MaxFaults
    /\ mtx = 0 /\ (Cur.st = "open" => \A th \in Threads : pc[th] = "idle")
    /\ Drop(N)
    /\ nf' = nf + 1
    /\ hist' = [hist EXCEPT ![CHOOSE th \in Threads : TRUE] = Append(@, "drop")]
    /\ Same(<<pc, call, mtx, stat, sock, seqn, nops, decs>>)

Opened(th) ==
    /\ pc[th] = "opened" /\ mtx = 0
    /\ stat' = "conn"
    /\ Goto(th, IF call[th].op = "unit" THEN "send" ELSE "ok")
    /\ Same(<<evars, call, mtx, sock, seqn, nops, nf, hist, decs>>)

Finish(th) ==
    /\ pc[th] \in {"fin", "fail"} /\ mtx = 0
    /\ stat' = "disc"
    /\ Goto(th, IF pc[th] = "fin" THEN "ok" ELSE "err")
    /\ Same(<<evars, call, mtx, sock, seqn, nops, nf, hist, decs>>)

Return(th) ==
    /\ pc[th] \in {"ok", "err"}
    /\ LET ok == pc[th] = "ok"
           c == call[th].id
       IN CASE call[th].op = "connect" -> RetConnect(c, ok)
            [] call[th].op = "disconnect" -> RetDisconnect(c, ok)
            [] call[th].op = "unit" -> RetUnit(c, ok, TRUE, "v" \o Key(c))
    /\ Goto(th, "idle")
    /\ Same(<<call, mtx, stat, sock, seqn, nops, nf, hist, decs>>)

Done == (nops = MaxOps \/ N = MaxConns) /\ (\A th \in Threads : pc[th] \in {"idle", "dial"})

Next ==
        \/ \E th \in Threads : \/ \E op \in Ops : Start(th, op)
                               \/ Begin(th) \/ Dial(th) \/ SendReg(th) \/ SendOpen(th) \/ SendUnit(th) \/ SendClose(th)
                               \/ SendFails(th)
                               \/ \E ok \in BOOLEAN : Answer(th, ok)
                               \/ \E f \in Faults : Lose(th, f)
                               \/ Opened(th) \/ Finish(th) \/ Return(th)
        \/ HangUp
        \/ (Done /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

\* the reference client is never stuck in a state the target cannot get it out of (deadlock is checked), and:
StatusTrue == (\A th \in Threads : pc[th] = "idle") /\ Status # "unsure" => (stat = "conn") = (Status = "conn")
AllInv == Inv /\ StatusTrue

Small == TRUE
Emit == (Gen /\ (\A th \in Threads : pc[th] = "idle") /\ nops = MaxOps) =>
        PrintT("SCN " \o ToJson([ops |-> hist, decs |-> decs]))
View == <<evars, pc, call, mtx, stat, sock, seqn, nops, nf>>
=============================================================================
