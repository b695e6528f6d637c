--------------------------- MODULE RoutePathTrace ---------------------------
EXTENDS RoutePath, TraceLib

TraceInit == LibInit /\ RInit
TParse == Is("parse") /\ ParseOk(Ev.items, Ev.ok, Ev.bytes) /\ UNCHANGED routes
TBuild == Is("build") /\ BuildOk(Ev.steps, Ev.ok, Ev.bytes) /\ UNCHANGED routes
TSeg == Is("segment") /\ SegmentOk(Ev.k, Ev.n, Ev.len, Ev.bytes, Ev.back) /\ UNCHANGED routes
THandle == Is("handle") /\ Handle(Read(Ev.items).out, Ev.id)
TReach == Is("reach") /\ Reach(Read(Ev.items).out, Ev.ok, Ev.id)

TraceNext == TParse \/ TBuild \/ TSeg \/ THandle \/ TReach
Track == Progress(TRUE)
=============================================================================
