---------------------------- MODULE TagPathTrace ----------------------------
EXTENDS TagPath, TraceLib

TraceInit == LibInit /\ PInit
Range(s) == {s[i] : i \in DOMAIN s}
TTable == Is("table") /\ Publish(Range(Ev.entries))
TCall == Is("call") /\ Call(Ev.kind, Ev.parts, Ev.bit, Ev.ok, Ev.n, Ev.width)
TReq == Is("req") /\ Request(Ev.kind, Ev.segs, Ev.n, Ev.val, Ev.bits)
TRet == Is("ret") /\ Return(Ev.ok, Ev.val)

TraceNext == TTable \/ TCall \/ TReq \/ TRet
Track == Progress(TRUE)
=============================================================================
