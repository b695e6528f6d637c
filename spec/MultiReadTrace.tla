--------------------------- MODULE MultiReadTrace ---------------------------
EXTENDS MultiRead, TraceLib

Empty == [n \in {} |-> ""]
TraceInit == LibInit /\ MInit(Empty, Empty)
\* a list of [n, v] as a function
Fun(q) == [n \in {q[k].n : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k].n = n].v]

Cfg == Is("cfg") /\ vals' = Fun(Ev.vals) /\ bits' = Fun(Ev.bits) /\ UNCHANGED <<call, asked, bad>>
TBegin == Is("begin") /\ Begin(Ev.items, Ev.ordered)
TAsk == Is("ask") /\ Ask(Ev.subs, Ev.whole, Ev.len, Ev.rlen, Ev.max)
TReturn == Is("end") /\ Return(Ev.ok, Ev.results)

TraceNext == Cfg \/ TBegin \/ TAsk \/ TReturn
Track == Progress(TRUE)
=============================================================================
