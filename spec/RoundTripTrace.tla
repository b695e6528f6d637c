--------------------------- MODULE RoundTripTrace ---------------------------
EXTENDS RoundTrip, TraceLib

AsTable(q) == [n \in {q[i].n : i \in DOMAIN q} |-> (CHOOSE x \in {q[i] : i \in DOMAIN q} : x.n = n).v]
TraceInit == LibInit /\ RTInit(<<>>)

TTable == Is("table") /\ calls = <<>> /\ table' = AsTable(Ev.tags) /\ UNCHANGED calls
TCall == Is("call") /\ Call(Ev.id, Ev.write, Ev.parts)
TRet == Is("ret") /\ Return(Ev.id, Ev.ok, Ev.must, Ev.vals)
TEnd == Is("end") /\ Holds(AsTable(Ev.tags)) /\ UNCHANGED rtvars

\* a write takes effect as late as it can: just before a return that needs it
Tags(c) == {c.parts[i].tag : i \in DOMAIN c.parts}
Needed(id, i) ==
    /\ l <= Len(Traces[t]) /\ Ev.ev = "ret" /\ Ev.ok /\ Ev.id \in DOMAIN calls
    /\ LET r == calls[Ev.id] IN
       IF Ev.id = id
       THEN \A j \in DOMAIN r.parts \ r.done : i <= j         \* (the parts of one call are about different elements)
       ELSE calls[id].parts[i].tag \in Tags(r)
TEffect == \E id \in DOMAIN calls : \E i \in DOMAIN calls[id].parts : Needed(id, i) /\ Effect(id, i) /\ Silent
\* a write that failed may have taken effect in part, before it returned
TFail == /\ l <= Len(Traces[t]) /\ Ev.ev = "ret" /\ ~Ev.ok /\ Ev.id \in DOMAIN calls
         /\ \E i \in DOMAIN calls[Ev.id].parts : (\A j \in calls[Ev.id].done : j < i) /\ Effect(Ev.id, i) /\ Silent

TraceNext == TTable \/ TCall \/ TRet \/ TEnd \/ TEffect \/ TFail
Track == Progress(TRUE)
=============================================================================
