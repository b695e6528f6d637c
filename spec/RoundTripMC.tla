----------------------------- MODULE RoundTripMC -----------------------------
(* Clients that send their calls as messages, a server that handles one service at a  *)
(* time on its own table, against RoundTrip.  Careless is one way not to keep to it:   *)
(*   torn   a read of an array is answered piece by piece                              *)
(*   tear   a write of an array is done piece by piece                                 *)
(*   early  a write returns when its last message is sent                              *)
(*   swap   the answers of one message are handed out in the wrong order               *)
(*   cache  a client returns what it read before                                       *)
(*   stale  a client hands out the answer to its last read                             *)
(*   twice  a write is sent again after it was answered                                *)
EXTENDS RoundTrip, TLC, Json

CONSTANTS Threads, MaxOps, Careless, Gen

VARIABLES itab, work, n, kept, again, ok, hist
ivars == <<itab, work, n, kept, again, hist>>
vars == <<rtvars, ivars, ok>>

T0 == [a |-> <<"0", "0">>, b |-> <<"0">>]
P(tag, at, k, v) == [tag |-> tag, at |-> at, n |-> k, whole |-> TRUE, v |-> v]
Reads == {<<P("a", -1, 2, <<>>)>>, <<P("b", -1, 1, <<>>)>>, <<P("a", 1, 1, <<>>), P("b", -1, 1, <<>>)>>}
Writes(x) == {<<P("a", -1, 2, <<x, x>>)>>, <<P("a", 1, 1, <<x>>)>>, <<P("b", -1, 1, <<x>>), P("a", 0, 1, <<x>>)>>}

Idle == [id |-> 0, write |-> FALSE, parts |-> <<>>, next |-> 1, half |-> <<>>, got |-> <<>>]
Init == /\ RTInit(T0) /\ itab = T0 /\ work = [th \in Threads |-> Idle] /\ n = 0
        /\ kept = [th \in Threads |-> <<>>] /\ again = {} /\ ok = TRUE /\ hist = <<>>

\* a step of the implementation which the specification has to allow
Sees(A) == IF ENABLED A THEN A /\ UNCHANGED ok ELSE UNCHANGED rtvars /\ ok' = FALSE

Start(th) ==
    /\ work[th].id = 0 /\ n < MaxOps
    /\ \E w \in BOOLEAN : \E ps \in IF w THEN Writes(ToString(n + 1)) ELSE Reads :
         /\ Call(n + 1, w, ps)
         /\ work' = [work EXCEPT ![th] = [Idle EXCEPT !.id = n + 1, !.write = w, !.parts = ps]]
         /\ hist' = IF Gen THEN Append(hist, [th |-> th, w |-> w, p |-> [i \in DOMAIN ps |-> [t |-> ps[i].tag, at |-> ps[i].at, n |-> ps[i].n]]]) ELSE hist
    /\ n' = n + 1 /\ UNCHANGED <<itab, kept, again, ok>>

Piece(p, i) == P(p.tag, From(p) + i - 1, 1, IF p.v = <<>> THEN <<>> ELSE <<p.v[i]>>)
Serve(th) ==
    /\ work[th].id # 0 /\ work[th].next <= Len(work[th].parts)
    /\ LET w == work[th]
           p == w.parts[w.next]
           k == Len(w.half) + 1
           pieces == p.n > 1 /\ Careless = IF w.write THEN "tear" ELSE "torn" IN
       IF w.write
       THEN IF pieces /\ k < p.n
            THEN /\ itab' = Store(itab, Piece(p, k)) /\ work' = [work EXCEPT ![th].half = Append(@, "x")] /\ UNCHANGED <<rtvars, ok>>
            ELSE /\ itab' = Store(itab, IF pieces THEN Piece(p, k) ELSE p)
                 /\ work' = [work EXCEPT ![th].half = <<>>, ![th].next = @ + 1]
                 /\ Sees(Effect(w.id, w.next))
       ELSE /\ LET q == IF pieces THEN Piece(p, k) ELSE p
                   v == w.half \o Now(itab, q) IN
               work' = IF pieces /\ k < p.n THEN [work EXCEPT ![th].half = v]
                       ELSE [work EXCEPT ![th].half = <<>>, ![th].next = @ + 1, ![th].got = Append(@, v)]
            /\ UNCHANGED <<itab, rtvars, ok>>
    /\ UNCHANGED <<n, kept, again, hist>>

Turned(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Finish(th) ==
    /\ work[th].id # 0
    /\ LET w == work[th]
           sent == w.next > Len(w.parts)
           old == kept[th] # <<>> /\ kept[th].parts = w.parts
           vals == IF Careless = "swap" THEN Turned(w.got)
                   ELSE IF Careless = "stale" /\ kept[th] # <<>> /\ [i \in DOMAIN w.parts |-> w.parts[i].n] = [i \in DOMAIN kept[th].parts |-> kept[th].parts[i].n]
                        THEN kept[th].got
                   ELSE IF Careless = "cache" /\ old THEN kept[th].got ELSE w.got IN
       /\ sent \/ (Careless = "early" /\ w.write /\ w.next = Len(w.parts))
       /\ Sees(Return(w.id, TRUE, TRUE, IF w.write THEN <<>> ELSE vals))
       /\ kept' = IF w.write \/ Careless \notin {"cache", "stale"} THEN kept ELSE [kept EXCEPT ![th] = [parts |-> w.parts, got |-> w.got]]
       /\ again' = IF w.write /\ Careless \in {"twice", "early"} THEN again \cup {[p |-> w.parts[Len(w.parts)]]} ELSE again
    /\ work' = [work EXCEPT ![th] = Idle]
    /\ UNCHANGED <<itab, n, hist>>

\* what was sent once more, or was still under way, when the call had returned
Late == /\ \E m \in again : itab' = Store(itab, m.p) /\ again' = again \ {m}
        /\ UNCHANGED <<rtvars, ok, work, n, kept, hist>>

Next == \/ \E th \in Threads : Start(th) \/ Serve(th) \/ Finish(th)
        \/ (Careless \in {"twice", "early"} /\ Late)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E th \in Threads : Serve(th) \/ Finish(th))

Allowed == ok
\* the two tables agree whenever nothing is under way
Agree == (\A th \in Threads : work[th].id = 0) /\ again = {} => itab = table
Quiet == \A th \in Threads : work[th].id = 0
Returns == \A th \in Threads : work[th].id # 0 ~> work[th].id = 0
Emit == Gen /\ n = MaxOps /\ Quiet => PrintT("SCN " \o ToJson([ops |-> hist]))
==============================================================================
