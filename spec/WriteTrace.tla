----------------------------- MODULE WriteTrace -----------------------------
EXTENDS Write, TraceLib

TraceInit == LibInit /\ WInit
TBegin == Is("begin") /\ Begin(Ev.items)
TPut == Is("put") /\ Put(Ev.subs, Ev.whole, Ev.len, Ev.max)
TReturn == Is("end") /\ Return(Ev.ok)

TraceNext == TBegin \/ TPut \/ TReturn
Track == Progress(TRUE)
=============================================================================
