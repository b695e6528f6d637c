--------------------------- MODULE EipServerTrace ---------------------------
EXTENDS EipServer, TraceLib

TraceInit == LibInit /\ SInit
TSetup == Is("setup") /\ Setup(Ev.stores, Ev.orders, Ev.ident)
TDial == Is("dial") /\ Dial(Ev.s)
TReq == Is("req") /\ Request(Ev.s, Ev)
TReply == Is("reply") /\ IF sess[Ev.s].up THEN Reply(Ev.s, Ev) ELSE UNCHANGED svars
TClosed == Is("closed") /\ Ends(Ev.s)
TSilent == Is("silent") /\ Ends(Ev.s)
TDump == Is("dump") /\ Holds(Ev.path, Ev.tags)
TOver == Is("over") /\ UNCHANGED svars

\* The server is taken to handle a request no sooner than the next thing seen depends on it: the request that the next
\* event answers, or any request while several are under way.
Pending == {s \in DOMAIN sess : \E i \in 1..Len(sess[s].q) : ~sess[s].q[i].done}
THandle == /\ l <= Len(Traces[t]) /\ Ev.ev \in {"reply", "closed", "silent", "dump"}
           /\ Silent
           /\ \E s \in Pending : sess[s].up /\ Handle(s)

TraceNext == TSetup \/ TDial \/ TReq \/ TReply \/ TClosed \/ TSilent \/ TDump \/ TOver \/ THandle
Track == Progress(TRUE)
=============================================================================
