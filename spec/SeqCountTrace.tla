---------------------------- MODULE SeqCountTrace ----------------------------
EXTENDS SeqCount, TraceLib
TraceInit == LibInit /\ SInit
TConn == Is("conn") /\ Open(Ev.c)
TSent == Is("sent") /\ Sent(Ev.c, Ev.counts)
TDone == Is("done") /\ UNCHANGED last
\* whether an operation succeeds is the business of other properties
TFailed == Is("failed") /\ UNCHANGED last
TraceNext == TFailed \/ TConn \/ TSent \/ TDone
Track == Progress(TRUE)
=============================================================================
