--------------------------- MODULE PackLayoutTrace ---------------------------
EXTENDS PackLayout, TraceLib

TraceInit == LibInit
TPack == Is("pack") /\ PackOk(Layout(Ev.fields), Ev.room, Ev.bytes, Ev.n, Ev.ok)
TUnpack == Is("unpack") /\ UnpackOk(Ev.bytes, Layout(Ev.fields), Ev.n, Ev.ok)
TRows == Is("unpackrows") /\ UnpackOk(Ev.bytes, RowLayout(Ev.rows), Ev.n, Ev.ok)

TraceNext == TPack \/ TUnpack \/ TRows
Track == Progress(TRUE)
=============================================================================
