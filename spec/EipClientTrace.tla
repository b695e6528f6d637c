--------------------------- MODULE EipClientTrace ---------------------------
EXTENDS EipClient, TraceLib

TraceInit == LibInit /\ EInit([auto |-> FALSE, size |-> 0, ka |-> FALSE, vendor |-> "", orig |-> ""])

Range(s) == {s[i] : i \in DOMAIN s}

TCfg == Is("cfg") /\ cfg' = [auto |-> Ev.auto, size |-> Ev.size, ka |-> Ev.ka, vendor |-> Ev.vendor, orig |-> Ev.orig]
        /\ UNCHANGED <<cs, calls, fb, ka>>
TCall == Is("call") /\ Call(Ev.c, Ev.op, Range(Ev.keys), Ev.force)
TRet == /\ Is("ret")
        /\ CASE Ev.op = "connect" -> RetConnect(Ev.c, Ev.ok)
             [] Ev.op = "disconnect" -> RetDisconnect(Ev.c, Ev.ok)
             [] Ev.op \in Units -> RetUnit(Ev.c, Ev.ok, Ev.val # "", Ev.val)
             [] Ev.op = "kastart" -> RetKaStart(Ev.c)
             [] Ev.op = "kacancel" -> RetKaCancel(Ev.c, Ev.ok)
             [] OTHER -> FALSE
TTcp == Is("tcp") /\ Tcp(Ev.n)
TReq == /\ Is("req")
        /\ On("C04") => (Ev.bad = "" /\ (Ev.kind = "open" => Ev.vendor = cfg.vendor /\ Ev.orig = cfg.orig))
        /\ Req(Ev.n, Ev)
TRep == Is("rep") /\ Rep(Ev.n, Ev)
TFault == Is("fault") /\ Fault(Ev.n)
TDrop == Is("drop") /\ Drop(Ev.n)
TLate == Is("late") /\ UNCHANGED evars
TProbe == Is("probe") /\ Probe(Ev.conn)
TQuiesce == Is("quiesce") /\ Quiesce(Range(Ev.open), Ev.conn)
TKaBegin == Is("kabegin") /\ WinBegin
TKaEnd == Is("kaend") /\ WinEnd(Ev.asked, Ev.periods)
TSettle == Is("kasettled") /\ Settle
TSlept == Is("slept") /\ Slept

TraceNext == TCfg \/ TCall \/ TRet \/ TTcp \/ TReq \/ TRep \/ TFault \/ TDrop \/ TLate \/ TProbe \/ TQuiesce
             \/ TKaBegin \/ TKaEnd \/ TSettle \/ TSlept
Track == Progress(Inv)
=============================================================================
