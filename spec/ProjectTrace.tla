---------------------------- MODULE ProjectTrace ----------------------------
EXTENDS Project, TraceLib

TraceInit == LibInit /\ PInit
RECURSIVE Got(_)
Pairs2(m) == {<<m[i].name, Got(m[i].val)>> : i \in DOMAIN m}
Got(v) == [k |-> v.k, t |-> v.t, b |-> v.b, num |-> v.num, s |-> v.s, m |-> {<<v.m[i].name, Got(v.m[i].val)>> : i \in DOMAIN v.m},
           e |-> [i \in DOMAIN v.e |-> Got(v.e[i])]]
Notes(m) == {<<m[i].name, m[i].text>> : i \in DOMAIN m}
TFile == Is("file") /\ File(Ev.doc)
TTags == Is("tags") /\ Tags(Ev.err, Pairs2(Ev.m))
TComments == Is("comments") /\ Comments(Ev.err, Notes(Ev.m))
TRungs == Is("rungs") /\ Rungs(Ev.err, Notes(Ev.m))
TraceNext == TFile \/ TTags \/ TComments \/ TRungs
Track == Progress(TRUE)
=============================================================================
