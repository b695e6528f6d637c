----------------------------- MODULE RefreshTrace -----------------------------
EXTENDS Refresh, TraceLib

Range(s) == {s[i] : i \in DOMAIN s}
\* the tags as [name, value] pairs
Tags(s) == [x \in {e.name : e \in Range(s)} |-> (CHOOSE e \in Range(s) : e.name = x).val]

TraceInit == LibInit /\ RInit([want |-> FALSE, props |-> <<>>], <<>>)

TCfg == Is("cfg") /\ cfg' = [want |-> Ev.want, props |-> Ev.props] /\ tags' = (0 :> Tags(Ev.tags))
        /\ UNCHANGED <<now, con, seen, list, dead>>
TChange == Is("change") /\ Change(Ev.v, Tags(Ev.tags))
TOpened == Is("opened") /\ Opened(Ev.n)
TPoll == Is("poll") /\ Poll(Ev.n, Ev.props)
TPage == Is("page") /\ Page(Ev.n, Ev.first, Ev.last, Ev.refused)
TSide == Is("side") /\ Side(Ev.n)
TSettled == Is("settled") /\ Settled(Range(Ev.known))
TMatch == Is("match") /\ Match(Ev.a, Ev.b, Ev.yes)
TRead == Is("read") /\ Read(Ev.name, Ev.ok, Ev.val)

TraceNext == TCfg \/ TChange \/ TOpened \/ TPoll \/ TPage \/ TSide \/ TSettled \/ TRead \/ TMatch
Track == Progress(TRUE)
===============================================================================
